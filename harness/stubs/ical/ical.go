// Package ical is a stand-in for github.com/soh335/ical, written from its
// documented API, so that the whole of /repo compiles offline.
package ical

import (
	"bytes"
	"io"
	"time"
)

type VCalendar struct {
	VERSION          string
	PRODID           string
	URL              string
	NAME             string
	X_WR_CALNAME     string
	DESCRIPTION      string
	X_WR_CALDESC     string
	TIMEZONE_ID      string
	X_WR_TIMEZONE    string
	REFRESH_INTERVAL string
	X_PUBLISHED_TTL  string
	COLOR            string
	CALSCALE         string
	METHOD           string
	VComponent       []VComponent
}

func NewBasicVCalendar() *VCalendar {
	return &VCalendar{VERSION: "2.0", CALSCALE: "GREGORIAN"}
}

type VComponent interface {
	EncodeIcal(w io.Writer) error
}

type VEvent struct {
	UID         string
	DTSTAMP     time.Time
	DTSTART     time.Time
	DTEND       time.Time
	SUMMARY     string
	DESCRIPTION string
	TZID        string
	AllDay      bool
}

const (
	stampLayout    = "20060102T150405Z"
	dateLayout     = "20060102"
	dateTimeLayout = "20060102T150405"
)

func (c *VCalendar) Encode(w io.Writer) error {
	var b bytes.Buffer
	l := func(k, v string) {
		if v != "" {
			b.WriteString(k + ":" + v + "\r\n")
		}
	}
	b.WriteString("BEGIN:VCALENDAR\r\n")
	l("VERSION", c.VERSION)
	l("PRODID", c.PRODID)
	l("URL", c.URL)
	l("NAME", c.NAME)
	l("X-WR-CALNAME", c.X_WR_CALNAME)
	l("DESCRIPTION", c.DESCRIPTION)
	l("X-WR-CALDESC", c.X_WR_CALDESC)
	l("TIMEZONE-ID", c.TIMEZONE_ID)
	l("X-WR-TIMEZONE", c.X_WR_TIMEZONE)
	l("REFRESH-INTERVAL;VALUE=DURATION", c.REFRESH_INTERVAL)
	l("X-PUBLISHED-TTL", c.X_PUBLISHED_TTL)
	l("COLOR", c.COLOR)
	l("CALSCALE", c.CALSCALE)
	l("METHOD", c.METHOD)
	for _, v := range c.VComponent {
		if err := v.EncodeIcal(&b); err != nil {
			return err
		}
	}
	b.WriteString("END:VCALENDAR\r\n")
	_, err := w.Write(b.Bytes())
	return err
}

func (e *VEvent) EncodeIcal(w io.Writer) error {
	var b bytes.Buffer
	layout, typ, tz := dateTimeLayout, "DATE-TIME", ""
	utc := e.TZID == "" || e.TZID == "UTC"
	if e.AllDay {
		layout, typ = dateLayout, "DATE"
	} else if utc {
		layout += "Z"
	}
	if !utc {
		tz = "TZID=" + e.TZID + ";"
	}
	b.WriteString("BEGIN:VEVENT\r\n")
	b.WriteString("DTSTAMP:" + e.DTSTAMP.UTC().Format(stampLayout) + "\r\n")
	b.WriteString("UID:" + e.UID + "\r\n")
	if !utc {
		b.WriteString("TZID:" + e.TZID + "\r\n")
	}
	b.WriteString("SUMMARY:" + e.SUMMARY + "\r\n")
	if e.DESCRIPTION != "" {
		b.WriteString("DESCRIPTION:" + e.DESCRIPTION + "\r\n")
	}
	b.WriteString("DTSTART;" + tz + "VALUE=" + typ + ":" + e.DTSTART.Format(layout) + "\r\n")
	b.WriteString("DTEND;" + tz + "VALUE=" + typ + ":" + e.DTEND.Format(layout) + "\r\n")
	b.WriteString("END:VEVENT\r\n")
	_, err := w.Write(b.Bytes())
	return err
}

type VAlarm struct {
	ACTION  string
	TRIGGER string
}

func (v *VAlarm) EncodeIcal(w io.Writer) error {
	_, err := io.WriteString(w, "BEGIN:VALARM\r\nACTION:"+v.ACTION+"\r\nTRIGGER:"+v.TRIGGER+"\r\nEND:VALARM\r\n")
	return err
}
