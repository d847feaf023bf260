package media

// What has to become of a frame.
const (
	Must = iota
	MustNot
	May
)

var ClassNames = [...]string{"must be recorded", "must not be recorded", "may be recorded"}

// Classify is the reference model of the default sampler: what has to become of
// each frame, and whether an inter frame would have been usable.
func Classify(frames []Frame, pkts []Pkt, ids bool) (out []int, usable []bool) {
	padLost := map[int]bool{}
	for _, p := range pkts {
		if p.Pad && p.Lost {
			padLost[p.Frame] = true
		}
	}
	const (
		needKey = iota
		good
		uncertain
	)
	st := needKey
	started := false
	out = make([]int, len(frames))
	for i, f := range frames {
		usable = append(usable, st == good)
		switch {
		case f.Arrive == f.NPkt && f.Key:
			out[i], st, started = Must, good, true
		case f.Arrive == f.NPkt:
			out[i] = [...]int{MustNot, Must, May}[st]
		case f.Arrive > 0:
			out[i], st = MustNot, needKey
		default:
			out[i] = MustNot
			if started && st != needKey {
				if ids {
					st = needKey
				} else {
					st = uncertain
				}
			}
		}
		if padLost[i] && st == good {
			st = uncertain
		}
	}
	return
}
