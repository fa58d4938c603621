package props

import (
	log "github.com/sirupsen/logrus"

	"verif.local/harness/mon"
)

// This file comes last so that the other properties are registered before it.

// raceLoad is one kind of task of the race check.
type raceLoad struct {
	prop, scenario string
	quick          int
	params         func(i int) map[string]int
}

var raceLoads = []raceLoad{
	{"C07", "relay", 64, func(i int) map[string]int { return map[string]int{"n": 3} }},
	{"C08", "startup", 24, func(i int) map[string]int { return map[string]int{"n": 8, "greet": i % 2} }},
	{"C09", "gate", 24, func(i int) map[string]int { return map[string]int{"n": 20} }},
	{"C10", "negotiate", 24, func(i int) map[string]int { return map[string]int{"n": 20} }},
	{"C11", "hangup", 96, func(i int) map[string]int { return map[string]int{"n": 12} }},
	{"C12", "isolation", 32, func(i int) map[string]int { return map[string]int{"n": 10} }},
	{"C13", "pipeline", 6, func(i int) map[string]int { return map[string]int{"n": 300} }},
	{"C13", "stall", 6, func(i int) map[string]int { return map[string]int{"rev": i % 2} }},
	{"C14", "close", 240, func(i int) map[string]int { return map[string]int{"v": i % 4} }},
	{"C15", "listen", 64, func(i int) map[string]int { return map[string]int{"n": 10, "twin": i % 2, "early": 1} }},
	{"C16", "accept", 48, func(i int) map[string]int { return map[string]int{"n": 2 + i%14} }},
	{"C17", "start", 240, nil},
	{"C18", "reads", 600, func(i int) map[string]int { return map[string]int{"mode": i % 2} }},
	{"C19", "updates", 400, func(i int) map[string]int { return map[string]int{"concurrent": i % 2} }},
	{"C20", "blocked", 400, nil},
	{"C21", "event", 24, func(i int) map[string]int { return map[string]int{"n": 300} }},
	{"C23", "reload", 32, func(i int) map[string]int { return map[string]int{"n": 6, "early": i % 2, "instrumented": 1} }},
	{"C25", "together", 24, func(i int) map[string]int { return map[string]int{"n": 6} }},
	{"C06", "concurrent", 4, func(i int) map[string]int { return map[string]int{"n": 200} }},
	{"C27", "switch", 32, func(i int) map[string]int { return map[string]int{"n": 10, "start": i % 2, "race": i / 2 % 2} }},
}

func init() {
	sc := map[string]func(*mon.T){}
	for _, l := range raceLoads {
		f := mon.Registry[l.prop].Scenarios[l.scenario]
		if f == nil {
			panic(l.prop + " " + l.scenario)
		}
		sc[l.prop+"/"+l.scenario] = func(t *mon.T) {
			// The logger's lock orders the goroutines that log, which would hide races.
			log.SetLevel([]log.Level{log.PanicLevel, log.PanicLevel, log.InfoLevel, log.TraceLevel}[t.Seed%4])
			f(t)
		}
	}
	mon.Register(&mon.Property{
		ID: "C26",
		Rule: "the workloads of the properties C06-C21, C23, C25 and C27 (sessions, hang-ups, isolation, stalls, Close at any moment, listener and database changes, accept errors, concurrent Start, readers, subscribers, events, reloading by the real program's code, concurrent metadata calls) in a build with the race detector; yield points without shared state add random delays; logging on and off; the ordering that the race runtime adds to socket reads and writes is removed. Distinct as in the workloads. " +
			"Oracle: the race detector's reports with an access in product code; a runtime report of concurrent map access.",
		Assumptions: []string{"a race is only seen if both accesses are executed in a run"},
		Scenarios:   sc,
		Race:        true,
		NeedProgram: true,
		MinDistinct: 1000,
		Plan: func(r *mon.Run) {
			var ts []mon.Task
			for _, l := range raceLoads {
				for i := 0; i < l.quick*r.Pick(1, 12); i++ {
					var p map[string]int
					if l.params != nil {
						p = l.params(i)
					}
					ts = append(ts, r.Task(l.prop+"/"+l.scenario, p))
				}
			}
			r.Rand.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
			r.Do(ts)
		},
	})
}
