package plan

// Generate derives one run from a property name and an integer; it is pure.
func Generate(prop string, seed uint64) *Spec {
	r := NewR(seed).fork(prop)
	for _, p := range ServerProps {
		if p == prop {
			return genServer(prop, seed, r)
		}
	}
	switch prop {
	case "P12":
		return genGen(prop, seed, r)
	case "P15", "P16", "P17", "P18", "P19", "P23", "P27":
		return genClient(prop, seed, r)
	case "P26":
		return genWhole(prop, seed, r)
	case "P20":
		return genAuth(prop, seed, r)
	case "P21":
		return genEvent(prop, seed, r)
	}
	return nil
}
