ET = 'core/eventloop/eltask.go'
EU = 'core/eventloop/eltaskutils.go'
bad('P23-target', 'P23', (ET, 'client := rpc.KMeansClient(local.ToStr(), ns, nil)\n\n				for', '''client := rpc.KMeansClient(addrs[0].ToStr(), ns, nil)

				for'''))
bad('P23-swapped', 'P23', (ET, '				for other, otherLen := range addrsLens {', '				for other, otherLen := range addrsLens {\n					client := rpc.KMeansClient(other.ToStr(), ns, nil)'), (ET, 'client.StealCentroids(other.ToStr(), transferDPN)', 'client.StealCentroids(local.ToStr(), transferDPN)'), (ET, '				client := rpc.KMeansClient(local.ToStr(), ns, nil)\n\n				for', '				for'))
bad('P23-self', 'P23', (ET, 'if local.Comp(other) || addrsLens[local] > dpMean {', 'if addrsLens[local] > dpMean {'))
bad('P23-self-and', 'P23', (ET, 'if local.Comp(other) || addrsLens[local] > dpMean {', 'if local.Comp(other) && addrsLens[local] > dpMean {'))
bad('P23-needy-plus', 'P23', (ET, 'if addrsLens[local] > dpMean-margin {', 'if addrsLens[local] > dpMean+margin {'))
bad('P23-needy-none', 'P23', (ET, 'if addrsLens[local] > dpMean-margin {', 'if addrsLens[local] > dpMean {'))
bad('P23-needy-other', 'P23', (ET, 'if addrsLens[local] > dpMean-margin {', 'if otherLen < dpMean-margin {'))
bad('P23-surplus-minus', 'P23', (ET, 'otherLen-transferDPN < dpMean+margin', 'otherLen-transferDPN < dpMean-margin'))
bad('P23-surplus-before', 'P23', (ET, 'otherLen-transferDPN < dpMean+margin', 'otherLen+transferDPN < dpMean+margin'))
bad('P23-surplus-or', 'P23', (ET, '< dpMean+margin && len(addrs) != 1 {', '< dpMean+margin && len(addrs) != 2 {'))
bad('P23-surplus-gt1', 'P23', (ET, '< dpMean+margin && len(addrs) != 1 {', '< dpMean+margin && len(addrs) > 2 {'))
bad('P23-surplus-remote', 'P23', (ET, '< dpMean+margin && len(addrs) != 1 {', '< dpMean+margin && len(cfg.RemoteAddrs) != 1 {'))
bad('P23-amount-zero', 'P23', (ET, '''					if transferDPN == 0 {
						continue
					}

''', ''))
bad('P23-amount-one', 'P23', (ET, 'if transferDPN == 0 {', 'if transferDPN == 1 {'))
bad('P23-amount-sign', 'P23', (ET, 'transferDPN := (dpMean - addrsLens[local]) / len', 'transferDPN := (addrsLens[local] - dpMean) / len'))
bad('P23-amount-margin', 'P23', (ET, 'transferDPN := (dpMean - addrsLens[local]) / len', 'transferDPN := (dpMean - margin - 1 - addrsLens[local]) / len'))
bad('P23-mean-of-all', 'P23', (ET, 'dpMean := dpTotal / len(addrsLens)', 'dpMean := dpTotal / len(cfg.RemoteAddrs)'))
bad('P23-mean-most', 'P23', (ET, '					dpTotal += dpLen\n', '					dpTotal = dpLen\n'))
bad('P23-stale', 'P23', (ET, '					addrsLens[local] = addrsLens[local] + n\n', ''))
bad('P23-stale-want', 'P23', (ET, 'n, _ := client.StealCentroids(other.ToStr(), transferDPN)\n', 'n, ok := client.StealCentroids(other.ToStr(), transferDPN)\n'), (ET, '					addrsLens[local] = addrsLens[local] + n\n', '					if ok {\n						addrsLens[local] = addrsLens[local] + n\n					}\n'))
bad('P23-stale-minus', 'P23', (ET, 'addrsLens[local] = addrsLens[local] + n', 'addrsLens[local] = addrsLens[local] - n'))
bad('P23-cached', 'P23', (ET, '				for other, otherLen := range addrsLens {', '				have := addrsLens[local]\n				for other, otherLen := range addrsLens {'), (ET, 'if addrsLens[local] > dpMean-margin {', 'if have > dpMean-margin {'), (ET, 'transferDPN := (dpMean - addrsLens[local]) / len', 'transferDPN := (dpMean - have) / len'))
bad('P23-unreachable', 'P23', (EU, '''		if r.ok {
			res[r.addr] = r.DPLen
		}
''', '''		res[r.addr] = r.DPLen
'''))
bad('P23-unreachable-net', 'P23', (EU, '_, castOK := err.(netrpc.ServerError)', '_, castOK := err.(interface{ Timeout() bool })'), (EU, '	netrpc "net/rpc"\n', ''))
bad('P23-unreachable-any', 'P23', (EU, 'ok := err == nil || castOK', 'ok := lenDP >= 0 || castOK'))
bad('P23-unreachable-not', 'P23', (EU, 'ok := err == nil || castOK', 'ok := err != nil || castOK'))
bad('P23-namespace', 'P23', (EU, 'client := rpc.KMeansClient(addr.ToStr(), namespace, &err)\n			lenDP', 'client := rpc.KMeansClient(addr.ToStr(), "", &err)\n			lenDP'))
bad('P23-captured', 'P20', (EU, 'go func(addr Addr) {', 'go func(_ Addr) {\n			addr := addrs[0]'))
good('P23-le', (ET, 'if transferDPN == 0 {', 'if transferDPN <= 0 {'))
good('P23-first-check', (ET, 'if local.Comp(other) || addrsLens[local] > dpMean {', 'if local.Comp(other) {'))
good('P23-cached-ok', (ET, '				for other, otherLen := range addrsLens {', '				have := addrsLens[local]\n				for other, otherLen := range addrsLens {'), (ET, 'if addrsLens[local] > dpMean-margin {', 'if have > dpMean-margin {'), (ET, 'transferDPN := (dpMean - addrsLens[local]) / len', 'transferDPN := (dpMean - have) / len'), (ET, 'if local.Comp(other) || addrsLens[local] > dpMean {', 'if local.Comp(other) || have > dpMean {'), (ET, '					addrsLens[local] = addrsLens[local] + n\n', '					have += n\n'))
good('P23-helper', (ET, '''					if otherLen-transferDPN < dpMean+margin && len(addrs) != 1 {
						continue
					}
''', '''					if !spares(otherLen, transferDPN, dpMean, margin) && len(addrs) != 1 {
						continue
					}
'''), (ET, 'func eltMeta(', '''func spares(have, amount, mean, margin int) bool {
	return have-amount >= mean+margin
}

func eltMeta('''))
good('P23-split', (ET, '''					if otherLen-transferDPN < dpMean+margin && len(addrs) != 1 {
						continue
					}
''', '''					if len(addrs) != 1 {
						if left := otherLen - transferDPN; left < dpMean+margin {
							continue
						}
					}
'''))
good('P23-amount-helper', (ET, '''					transferDPN := (dpMean - addrsLens[local]) / len(cfg.RemoteAddrs)
''', '''					transferDPN := share(dpMean-addrsLens[local], len(cfg.RemoteAddrs))
'''), (ET, 'func eltMeta(', '''func share(amount, n int) int {
	return amount / n
}

func eltMeta('''))
good('P23-needed', (ET, '''					if addrsLens[local] > dpMean-margin {
						continue
					}
''', '''					missing := dpMean - addrsLens[local]
					if missing < margin {
						continue
					}
'''))
good('P23-mean-helper', (ET, '''				dpTotal := 0
				for _, dpLen := range addrsLens {
					dpTotal += dpLen
				}
				dpMean := dpTotal / len(addrsLens)
''', '''				dpMean := meanLen(addrsLens)
'''), (ET, 'func eltMeta(', '''func meanLen(lens map[Addr]int) int {
	total := 0
	for addr := range lens {
		total += lens[addr]
	}
	return total / len(lens)
}

func eltMeta('''))
good('P23-sequential', (EU, '''	for _, addr := range addrs {
		go func(addr Addr) {
			var err error
			client := rpc.KMeansClient(addr.ToStr(), namespace, &err)
			lenDP := client.LenDP()
			// NamespaceErr can be interpreted as dp len = 0. The type of
			// errors returned by a remote method is lost in net/rpc.
			_, castOK := err.(netrpc.ServerError)
			ok := err == nil || castOK
			ch <- nodeDPLen{addr, lenDP, ok}
		}(addr)
	}

	// Collect.
	res := make(map[Addr]int, len(addrs))
	for i := 0; i < len(addrs); i++ {
		r := <-ch
		if r.ok {
			res[r.addr] = r.DPLen
		}
	}
	return res
''', '''	res := make(map[Addr]int, len(addrs))
	for _, addr := range addrs {
		var err error
		lenDP := rpc.KMeansClient(addr.ToStr(), namespace, &err).LenDP()
		if _, castOK := err.(netrpc.ServerError); err != nil && !castOK {
			continue
		}
		res[addr] = lenDP
	}
	return res
'''), (EU, '''	type nodeDPLen struct {
		addr  Addr
		DPLen int
		ok    bool
	}

	// Fetch.
	ch := make(chan nodeDPLen, len(addrs))
''', ''))
good('P23-switch', (EU, '''			_, castOK := err.(netrpc.ServerError)
			ok := err == nil || castOK
			ch <- nodeDPLen{addr, lenDP, ok}
''', '''			ok := true
			switch err.(type) {
			case nil:
			case netrpc.ServerError:
				lenDP = 0
			default:
				ok = false
			}
			ch <- nodeDPLen{addr: addr, DPLen: lenDP, ok: ok}
'''))
