package ref

import "math"

// Phase is the time of a phase of the moon, in seconds since 1970 (dynamical
// time), by the method of Meeus, Astronomical Algorithms, chapter 49, without
// the planetary terms; good to a minute or two.  Quarter counts quarters of a
// lunation since the new moon of 6 January 2000; its remainder by four is the
// phase (new, first quarter, full, last quarter).
func Phase(quarter int) float64 {
	k := float64(quarter) / 4
	T := k / 1236.85
	sin := func(x float64) float64 { return math.Sin(x * math.Pi / 180) }
	cos := func(x float64) float64 { return math.Cos(x * math.Pi / 180) }
	j := 2451550.09766 + 29.530588861*k + 0.00015437*T*T - 0.00000015*T*T*T + 0.00000000073*T*T*T*T
	E := 1 - 0.002516*T - 0.0000074*T*T
	M := 2.5534 + 29.1053567*k - 0.0000014*T*T - 0.00000011*T*T*T
	N := 201.5643 + 385.81693528*k + 0.0107582*T*T + 0.00001238*T*T*T - 0.000000058*T*T*T*T
	F := 160.7108 + 390.67050284*k - 0.0016118*T*T - 0.00000227*T*T*T + 0.000000011*T*T*T*T
	O := 124.7746 - 1.56375588*k + 0.0020672*T*T + 0.00000215*T*T*T
	q := FMod(quarter, 4)
	if q%2 == 0 {
		a := [7]float64{-.40720, .17241, .01608, .01039, .00739, -.00514, .00208}
		if q == 2 {
			a = [7]float64{-.40614, .17302, .01614, .01043, .00734, -.00515, .00209}
		}
		j += a[0]*sin(N) + a[1]*E*sin(M) + a[2]*sin(2*N) + a[3]*sin(2*F) + a[4]*E*sin(N-M) + a[5]*E*sin(N+M) + a[6]*E*E*sin(2*M) -
			.00111*sin(N-2*F) - .00057*sin(N+2*F) + .00056*E*sin(2*N+M) - .00042*sin(3*N) + .00042*E*sin(M+2*F) + .00038*E*sin(M-2*F) -
			.00024*E*sin(2*N-M) - .00017*sin(O) - .00007*sin(N+2*M) + .00004*sin(2*N-2*F) + .00004*sin(3*M) + .00003*sin(N+M-2*F) +
			.00003*sin(2*N+2*F) - .00003*sin(N+M+2*F) + .00003*sin(N-M+2*F) - .00002*sin(N-M-2*F) - .00002*sin(3*N+M) + .00002*sin(4*N)
	} else {
		j += -.62801*sin(N) + .17172*E*sin(M) - .01183*E*sin(N+M) + .00862*sin(2*N) + .00804*sin(2*F) + .00454*E*sin(N-M) + .00204*E*E*sin(2*M) -
			.0018*sin(N-2*F) - .0007*sin(N+2*F) - .0004*sin(3*N) - .00034*E*sin(2*N-M) + .00032*E*sin(M+2*F) + .00032*E*sin(M-2*F) -
			.00028*E*E*sin(N+2*M) + .00027*E*sin(2*N+M) - .00017*sin(O) - .00005*sin(N-M-2*F) + .00004*sin(2*N+2*F) - .00004*sin(N+M+2*F) +
			.00004*sin(N-2*M) + .00003*sin(N+M-2*F) + .00003*sin(3*M) + .00002*sin(2*N-2*F) + .00002*sin(N-M+2*F) - .00002*sin(3*N+M)
		w := .00306 - .00038*E*cos(M) + .00026*cos(N) - .00002*cos(N-M) + .00002*cos(N+M) + .00002*cos(2*F)
		if q == 3 {
			w = -w
		}
		j += w
	}
	return (j - 2440587.5) * 86400
}
