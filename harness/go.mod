module verif.local/harness

go 1.24

require (
	github.com/BurntSushi/toml v0.3.1
	github.com/hired/gevulot v0.0.0
	github.com/lib/pq v1.2.0
	github.com/sirupsen/logrus v1.4.2
)

require (
	github.com/alecthomas/template v0.0.0-20190718012654-fb15b899a751 // indirect
	github.com/alecthomas/units v0.0.0-20190924025748-f65c72e2690d // indirect
	github.com/fsnotify/fsnotify v1.4.7 // indirect
	golang.org/x/sync v0.0.0-20190911185100-cd5d95a43a6e // indirect
	golang.org/x/sys v0.0.0-20190422165155-953cdadca894 // indirect
	gopkg.in/alecthomas/kingpin.v2 v2.2.6 // indirect
)

replace github.com/hired/gevulot => /repo
