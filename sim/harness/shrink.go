package main

import "time"

// shrinkTape minimises a failing tape: test reports whether a candidate still
// shows the same violation class, and returns the decisions it really took.
func shrinkTape(t []uint32, deadline time.Time, test func([]uint32) ([]uint32, bool)) []uint32 {
	best := t
	try := func(c []uint32) bool {
		if time.Now().After(deadline) {
			return false
		}
		used, ok := test(c)
		if !ok {
			return false
		}
		if len(used) < len(c) {
			c = used
		}
		// drop trailing zeros, they are implied
		for len(c) > 0 && c[len(c)-1] == 0 {
			c = c[:len(c)-1]
		}
		if less(c, best) {
			best = append([]uint32(nil), c...)
			return true
		}
		return false
	}
	try(append([]uint32(nil), t...))
	for round := 0; round < 12 && time.Now().Before(deadline); round++ {
		before := append([]uint32(nil), best...)
		// truncate
		for n := len(best) / 2; n >= 1; n /= 2 {
			for len(best) > n && try(append([]uint32(nil), best[:len(best)-n]...)) {
			}
		}
		// delete chunks
		for n := 64; n >= 1; n /= 2 {
			for i := len(best) - n; i >= 0 && time.Now().Before(deadline); {
				if i+n > len(best) {
					i = len(best) - n
					if i < 0 {
						break
					}
				}
				c := append(append([]uint32(nil), best[:i]...), best[i+n:]...)
				if !try(c) {
					i -= max(1, n/2)
				}
			}
		}
		// zero chunks
		for n := 32; n >= 1; n /= 2 {
			for i := 0; i+n <= len(best) && time.Now().Before(deadline); i += n {
				z := true
				for _, v := range best[i : i+n] {
					if v != 0 {
						z = false
					}
				}
				if z {
					continue
				}
				c := append([]uint32(nil), best...)
				for k := i; k < i+n; k++ {
					c[k] = 0
				}
				try(c)
			}
		}
		// lower single values
		for i := 0; i < len(best) && time.Now().Before(deadline); i++ {
			for i < len(best) && best[i] > 0 {
				c := append([]uint32(nil), best...)
				c[i] /= 2
				if try(c) {
					continue
				}
				c = append([]uint32(nil), best...)
				c[i]--
				if !try(c) {
					break
				}
			}
		}
		// lower a value and delete what follows it (shorter lists)
		for i := 0; i+1 < len(best) && time.Now().Before(deadline); i++ {
			if best[i] == 0 {
				continue
			}
			for _, n := range []int{1, 2, 3, 5, 8} {
				if i+1+n > len(best) {
					break
				}
				c := append([]uint32(nil), best[:i+1]...)
				c[i]--
				c = append(c, best[i+1+n:]...)
				if try(c) {
					break
				}
			}
		}
		if !less(best, before) {
			break
		}
	}
	return best
}

func less(a, b []uint32) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	var sa, sb uint64
	for i := range a {
		sa += uint64(a[i])
		sb += uint64(b[i])
	}
	if sa != sb {
		return sa < sb
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}
