CE = 'pkg/kmeans/centroid/centroid.go'
CM = 'pkg/kmeans/centroidmanager/cmanager.go'
DI = 'pkg/mathutils/distance.go'
VT = 'pkg/mathutils/vectools.go'
ET = 'core/eventloop/eltask.go'
bad('P25-norm-and', 'P25', (DI, 'if norm1 == 0 || norm2 == 0 {', 'if norm1 == 0 && norm2 == 0 {'))
bad('P25-norm-one', 'P25', (DI, 'if norm1 == 0 || norm2 == 0 {', 'if norm1 == 0 {'))
bad('P25-norm-late', 'P25', (DI, '	return dot / norm1 / norm2, nil', '	if r := dot / norm1; norm2 != 0 {\n		return r / norm2, nil\n	}\n	return 0, nil'), (DI, 'if norm1 == 0 || norm2 == 0 {', 'if norm2 == 0 {'))
bad('P25-rm-guard', 'P25', (CE, 'if len(c.DataPoints) > 1 { // guard', 'if len(c.DataPoints) > 0 { // guard'))
bad('P25-nearest-guard', 'P25', (CM, 'if len(cm.Centroids) > 1 { // guard', 'if len(cm.Centroids) >= 1 { // guard'))
bad('P25-add-n', 'P25', (CE, 'c.vec = mathutils.VecDivScalar(c.vec, float64(len(c.DataPoints))+1)', 'c.vec = mathutils.VecDivScalar(c.vec, float64(len(c.DataPoints)))'))
bad('P25-mean-zero', 'P25', (VT, '	n := 1.\n', '	n := 0.\n'))
bad('P25-lb-guard', 'P25', (ET, '''				if len(addrsLens) == 0 { // guard 0 div error.
					continue
				}
''', '''				if len(addrs) == 0 { // guard 0 div error.
					continue
				}
'''))
bad('P25-lb-self', 'P25', (ET, 'if local.Comp(other) || addrsLens[local] > dpMean {', 'if local.Comp(other) && len(addrsLens) > 1 || addrsLens[local] > dpMean {'))
bad('P25-lb-weight', 'P25', (ET, 'transferDPN /= 3\n', 'transferDPN /= otherLen\n'))
bad('P25-prep', 'P25', (CM, '		cm.vec = mathutils.VecDivScalar(cm.vec, cmLen)\n', '		cm.vec = mathutils.VecDivScalar(cm.vec, cmLen-1)\n'))
bad('P25-expire-last', 'P25 P13', (CM, '''		centroid.Expire()
		// Finalize internal vec update.
		updateVec(centroid.Vec())
	}
''', '''		centroid.Expire()
		// Finalize internal vec update.
		updateVec(centroid.Vec())
	}
	cm.vec = mathutils.VecDivScalar(mathutils.VecMulScalar(cm.vec, 2), 2*float64(len(cm.Centroids))/float64(len(cm.Centroids)))
'''))
good('P25-norm-product', (DI, 'if norm1 == 0 || norm2 == 0 {', 'if norm1*norm2 == 0 {'))
good('P25-norm-pos', (DI, '''	if norm1 == 0 || norm2 == 0 {
		return 0, nil
	}
	var dot float64
	for i := 0; i < len(vec1); i++ {
		dot += vec1[i] * vec2[i]
	}
	return dot / norm1 / norm2, nil
''', '''	if norm1 > 0 && norm2 > 0 {
		var dot float64
		for i := range vec1 {
			dot += vec1[i] * vec2[i]
		}
		return dot / norm1 / norm2, nil
	}
	return 0, nil
'''))
good('P25-norm-switch', (DI, '''	if norm1 == 0 || norm2 == 0 {
		return 0, nil
	}
''', '''	switch {
	case norm1 == 0:
		return 0, nil
	case norm2 == 0:
		return 0, nil
	}
'''))
good('P25-rm-early', (CE, '''	if len(c.DataPoints) > 1 { // guard 0 div error.
''', '''	if n := len(c.DataPoints); n >= 2 { // guard 0 div error.
'''))
good('P25-mean-int', (VT, '	n := 1.\n', '	n := 1\n'), (VT, 'res[i] /= n\n', 'res[i] /= float64(n)\n'), (VT, '		n += 1\n', '		n++\n'))
good('P25-lb-helper', (ET, '''				dpTotal := 0
				for _, dpLen := range addrsLens {
					dpTotal += dpLen
				}
				dpMean := dpTotal / len(addrsLens)
''', '''				dpMean := meanDPs(addrsLens)
'''), (ET, '// Event-loop task for load balancing', '''// meanDPs is the mean amount of datapoints per node.
func meanDPs(lens map[Addr]int) int {
	total := 0
	for _, n := range lens {
		total += n
	}
	return total / len(lens)
}

// Event-loop task for load balancing'''))
good('P25-lb-len', (ET, '''				if len(addrsLens) == 0 { // guard 0 div error.
					continue
				}
''', '''				nodes := len(addrsLens)
				if nodes < 1 { // guard 0 div error.
					continue
				}
'''), (ET, 'dpMean := dpTotal / len(addrsLens)', 'dpMean := dpTotal / nodes'))
