package ref

import "math"

// Position of the Sun and Moon on a day, by Eade's procedure.
type Position struct {
	Horakhun, Kammacubala int64
	HorakhunElements
	MeanSunU, TrueSunU                         float64 // continuous
	MeanSun, TrueSun, MeanMoon, TrueMoon, Raek float64
}

func Circle(d float64) float64 {
	d = math.Mod(d, 360)
	if d < 0 {
		d += 360
	}
	if d >= 360 {
		d = 0
	}
	return d
}

// Apart is the distance of two angles on the circle.
func Apart(a, b float64) float64 {
	d := Circle(a - b)
	if d > 180 {
		d = 360 - d
	}
	return d
}

// Diff is the signed difference a-b on the circle, in (-180, 180].
func Diff(a, b float64) float64 {
	d := Circle(a - b)
	if d > 180 {
		d -= 360
	}
	return d
}

func sinDeg(d float64) float64 { return math.Sin(d * math.Pi / 180) }

func DayPosition(ce, day int) Position {
	y := NewYear(ce)
	el := int64(day) - y.Tithi
	p := Position{Horakhun: y.Horakhun + el, Kammacubala: y.Kammacubala + el*800}
	p.HorakhunElements = ElementsOfHorakhun(p.Horakhun)
	// B: mean Sun, cut to whole arcminutes, minus 3
	arc := floorDiv(p.Kammacubala*21600, 292207)
	p.MeanSunU = math.Floor(float64(arc-3)*10000/60) / 10000
	c := math.Floor(134 * sinDeg(math.Abs(p.MeanSunU-80)))
	p.TrueSunU = math.Floor(p.MeanSunU*10000+c*10000/60) / 10000
	p.MeanSun, p.TrueSun = Circle(p.MeanSunU), Circle(p.TrueSunU)
	// C: mean Moon
	av := float64(p.Avoman+p.Avoman/25) / 60
	p.MeanMoon = Circle(p.TrueSunU + av + 12*float64(p.Tithi) - 40.0/60)
	apogee := (float64((y.Uccabala+el)*3*30)/808*60 + 2) / 60
	p.TrueMoon = Circle(p.MeanMoon - 296*sinDeg(p.MeanMoon-apogee)/60)
	p.Raek = p.TrueMoon/(800.0/60) + 1
	return p
}
