package xdsverif

import "pgregory.net/rapid"

// Histories on the real manager: C01 (fold), C02 (ACK/NACK), C03 (requests), C04 (faults), C19 (eviction).

func init() {
	base := map[string]int{"get": 5, "gethit": 2, "again": 1, "push": 4, "serve": 6, "nds": 1, "adv": 2}
	with := func(extra map[string]int) map[string]int {
		o := map[string]int{}
		for k, v := range base {
			o[k] = v
		}
		for k, v := range extra {
			o[k] = v
		}
		return o
	}
	register(spec[histCase]{
		Prop: "C01", Name: "fold", Quick: 60000, Thorough: 3000000,
		Rule: "a full update dropped a cached name or a partial update was merged into an older cache, after at least 3 accepted responses",
		Gen: func(t *rapid.T) histCase {
			return genHist(t, histGen{maxOps: 34, advMS: [2]int{0, 3000}, bads: true, empties: true, weights: with(map[string]int{"unknown": 1, "fail": 1, "push": 5, "serve": 9})})
		},
		Run: func(cx *Ctx, c histCase) error { return runHist(cx, c, "C01") },
	})
	register(spec[histCase]{
		Prop: "C02", Name: "acks", Quick: 60000, Thorough: 3000000,
		Rule: "at least one rejected response arrived after an accepted one of the history",
		Gen: func(t *rapid.T) histCase {
			return genHist(t, histGen{maxOps: 30, advMS: [2]int{0, 2000}, bads: true, empties: true, weights: with(map[string]int{"push": 8, "unknown": 2, "nds": 3, "fail": 1})})
		},
		Run: func(cx *Ctx, c histCase) error { return runHist(cx, c, "C02") },
	})
	register(spec[histCase]{
		Prop: "C03", Name: "interest", Quick: 60000, Thorough: 3000000,
		Rule: "the interest set grew at least twice and an eviction or a reconnect happened",
		Gen: func(t *rapid.T) histCase {
			return genHist(t, histGen{maxOps: 30, advMS: [2]int{0, 9000}, bigAdv: true, bads: true, empties: true, weights: with(map[string]int{"get": 8, "adv": 5, "fail": 1, "sendbreak": 1, "gate": 1, "lag": 1})})
		},
		Run: func(cx *Ctx, c histCase) error { return runHist(cx, c, "C03") },
	})
	register(spec[histCase]{
		Prop: "C04", Name: "faults", Quick: 60000, Thorough: 3000000,
		Rule: "a stream failed after at least one accepted response",
		Gen: func(t *rapid.T) histCase {
			return genHist(t, histGen{maxOps: 30, advMS: [2]int{0, 4000}, bads: true, rareAdv: true, empties: true, weights: with(map[string]int{"get": 14, "gethit": 5, "push": 10, "serve": 18, "nds": 2, "adv": 5, "fail": 6, "sendbreak": 3, "down": 1, "up": 3, "auth": 1, "stall": 1, "unstall": 2, "gate": 2, "lag": 2, "outage": 1})})
		},
		Run: func(cx *Ctx, c histCase) error { return runHist(cx, c, "C04", "C01") },
	})
	register(spec[histCase]{
		Prop: "C19", Name: "sweeps", Quick: 60000, Thorough: 3000000,
		Rule: "a sweep evicted at least one resource",
		Gen: func(t *rapid.T) histCase {
			return genHist(t, histGen{maxOps: 32, advMS: [2]int{10, 31000}, bigAdv: true, bads: true, empties: true, weights: with(map[string]int{"get": 8, "gethit": 5, "adv": 8, "serve": 9, "push": 2, "fail": 1, "keep": 1})})
		},
		Run: func(cx *Ctx, c histCase) error { return runHist(cx, c, "C19") },
	})
	// more requests than the client's queue holds, behind a control plane that is slow to take them
	for _, p := range []string{"C02", "C03", "C04"} {
		register(spec[histCase]{
			Prop: p, Name: "backlog", Quick: 800, Thorough: 40000,
			Rule: "over 1000 requests were queued while nothing could be sent",
			Gen: func(t *rapid.T) histCase {
				return genHist(t, histGen{maxOps: 10, advMS: [2]int{0, 4000}, bads: true, rareAdv: true, flood: 5, weights: with(map[string]int{"get": 10, "push": 6, "serve": 10, "fail": 1})})
			},
			Run: func(cx *Ctx, c histCase) error { return runBacklog(cx, c, p) },
		})
	}
}
