package vtime

import "time"

// The parts of package time that have no clock.
type (
	Duration   = time.Duration
	Location   = time.Location
	Month      = time.Month
	ParseError = time.ParseError
	Time       = time.Time
	Weekday    = time.Weekday
)

// Constants of package time.
const (
	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
	January     = time.January
	February    = time.February
	March       = time.March
	April       = time.April
	May         = time.May
	June        = time.June
	July        = time.July
	August      = time.August
	September   = time.September
	October     = time.October
	November    = time.November
	December    = time.December
	Sunday      = time.Sunday
	Monday      = time.Monday
	Tuesday     = time.Tuesday
	Wednesday   = time.Wednesday
	Thursday    = time.Thursday
	Friday      = time.Friday
	Saturday    = time.Saturday
)

// Locations of package time.
var (
	UTC   = time.UTC
	Local = time.Local
)

// Functions of package time.
var (
	Date                   = time.Date
	FixedZone              = time.FixedZone
	LoadLocation           = time.LoadLocation
	LoadLocationFromTZData = time.LoadLocationFromTZData
	Parse                  = time.Parse
	ParseDuration          = time.ParseDuration
	ParseInLocation        = time.ParseInLocation
	Unix                   = time.Unix
	UnixMicro              = time.UnixMicro
	UnixMilli              = time.UnixMilli
)
