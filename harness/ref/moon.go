package ref

import "math"

// Times of the Moon's phases after Meeus, Astronomical Algorithms, ch. 49.

// Quarter numbers: lunation*4 + 0 new, 1 first quarter, 2 full, 3 last quarter.

func deltaT(year float64) float64 { // seconds, TT - UT
	switch {
	case year >= 1900 && year < 1920:
		t := year - 1900
		return -2.79 + 1.494119*t - 0.0598939*t*t + 0.0061966*t*t*t - 0.000197*t*t*t*t
	case year >= 1920 && year < 1941:
		t := year - 1920
		return 21.20 + 0.84493*t - 0.076100*t*t + 0.0020936*t*t*t
	case year >= 1941 && year < 1961:
		t := year - 1950
		return 29.07 + 0.407*t - t*t/233 + t*t*t/2547
	case year >= 1961 && year < 1986:
		t := year - 1975
		return 45.45 + 1.067*t - t*t/260 - t*t*t/718
	case year >= 1986 && year < 2005:
		t := year - 2000
		return 63.86 + 0.3345*t - 0.060374*t*t + 0.0017275*t*t*t + 0.000651814*t*t*t*t + 0.00002373599*t*t*t*t*t
	case year >= 2005 && year < 2050:
		t := year - 2000
		return 62.92 + 0.32217*t + 0.005589*t*t
	}
	u := (year - 1820) / 100
	return -20 + 32*u*u
}

func sin(d float64) float64 { return math.Sin(math.Mod(d, 360) * math.Pi / 180) }
func cos(d float64) float64 { return math.Cos(math.Mod(d, 360) * math.Pi / 180) }

// PhaseUnix gives the time of quarter q in seconds since 1970, UT.
func PhaseUnix(q int) float64 {
	k := float64(q) / 4
	t := k / 1236.85
	jde := 2451550.09766 + 29.530588861*k + 0.00015437*t*t - 0.000000150*t*t*t + 0.00000000073*t*t*t*t
	e := 1 - 0.002516*t - 0.0000074*t*t
	m := 2.5534 + 29.10535670*k - 0.0000014*t*t - 0.00000011*t*t*t
	p := 201.5643 + 385.81693528*k + 0.0107582*t*t + 0.00001238*t*t*t - 0.000000058*t*t*t*t
	f := 160.7108 + 390.67050284*k - 0.0016118*t*t - 0.00000227*t*t*t + 0.000000011*t*t*t*t
	o := 124.7746 - 1.56375588*k + 0.0020672*t*t + 0.00000215*t*t*t
	var c float64
	switch FloorMod(int64(q), 4) {
	case 0, 2:
		a := [7]float64{-0.40720, 0.17241, 0.01608, 0.01039, 0.00739, -0.00514, 0.00208}
		if FloorMod(int64(q), 4) == 2 {
			a = [7]float64{-0.40614, 0.17302, 0.01614, 0.01043, 0.00734, -0.00515, 0.00209}
		}
		c = a[0]*sin(p) + a[1]*e*sin(m) + a[2]*sin(2*p) + a[3]*sin(2*f) + a[4]*e*sin(p-m) + a[5]*e*sin(p+m) + a[6]*e*e*sin(2*m) -
			0.00111*sin(p-2*f) - 0.00057*sin(p+2*f) + 0.00056*e*sin(2*p+m) - 0.00042*sin(3*p) + 0.00042*e*sin(m+2*f) + 0.00038*e*sin(m-2*f) -
			0.00024*e*sin(2*p-m) - 0.00017*sin(o) - 0.00007*sin(p+2*m) + 0.00004*sin(2*p-2*f) + 0.00004*sin(3*m)
	default:
		c = -0.62801*sin(p) + 0.17172*e*sin(m) - 0.01183*e*sin(p+m) + 0.00862*sin(2*p) + 0.00804*sin(2*f) + 0.00454*e*sin(p-m) + 0.00204*e*e*sin(2*m) -
			0.00180*sin(p-2*f) - 0.00070*sin(p+2*f) - 0.00040*sin(3*p) - 0.00034*e*sin(2*p-m) + 0.00032*e*sin(m+2*f) + 0.00032*e*sin(m-2*f) -
			0.00028*e*e*sin(p+2*m) + 0.00027*e*sin(2*p+m) - 0.00017*sin(o)
		w := 0.00306 - 0.00038*e*cos(m) + 0.00026*cos(p) - 0.00002*cos(p-m) + 0.00002*cos(p+m) + 0.00002*cos(2*f)
		if FloorMod(int64(q), 4) == 1 {
			c += w
		} else {
			c -= w
		}
	}
	c += 0.000325*sin(299.77+0.107408*k-0.009173*t*t) + 0.000165*sin(251.88+0.016321*k)
	jd := jde + c
	return (jd-2440587.5)*86400 - deltaT(2000+(jd-2451545)/365.25)
}

// NearestQuarter gives the quarter with phase ph (0..3) nearest to the time.
func NearestQuarter(unix float64, ph int) int {
	jd := unix/86400 + 2440587.5
	l := int(math.Round((jd-2451550.09766)/29.530588861 - float64(ph)/4))
	best, bd := 0, math.Inf(1)
	for d := -1; d <= 1; d++ {
		q := (l+d)*4 + ph
		if x := math.Abs(PhaseUnix(q) - unix); x < bd {
			best, bd = q, x
		}
	}
	return best
}
