CM = "pkg/kmeans/centroidmanager/cmanager.go"
CE = "pkg/kmeans/centroid/centroid.go"

bad("P33-first", "P33", (CM, "centroid := cm.Centroids[indexes[0]]  ", "centroid := cm.Centroids[0]  "))
bad("P33-own-vec", "P33 P18", (CM, "cm.knnSearchFunc(dp.Vec, cm.centroidVecGenerator(), 1)", "cm.knnSearchFunc(cm.vec, cm.centroidVecGenerator(), 1)"))
bad("P33-second", "P33", (CM, "cm.knnSearchFunc(dp.Vec, cm.centroidVecGenerator(), 1)\n	if len(indexes) == 0 {", "cm.knnSearchFunc(dp.Vec, cm.centroidVecGenerator(), 2)\n	if len(indexes) == 0 {"),
    (CM, "centroid := cm.Centroids[indexes[0]]  ", "centroid := cm.Centroids[indexes[len(indexes)-1]]  "))
bad("P33-some-centroids", "P33", (CM, "cm.knnSearchFunc(dp.Vec, cm.centroidVecGenerator(), 1)", "cm.knnSearchFunc(dp.Vec, func() func() ([]float64, bool) {\n		i := 1\n		return func() ([]float64, bool) {\n			if i >= len(cm.Centroids) {\n				return nil, false\n			}\n			i++\n			return cm.Centroids[i-1].Vec(), true\n		}\n	}(), 1)"))
bad("P33-new-each", "P33", (CM, "if len(cm.Centroids) == 0 {\n		c := cm.newCentroid(dp.Vec)", "if len(cm.Centroids) < 2 {\n		c := cm.newCentroid(dp.Vec)"))
bad("P33-reset", "P33 P01", (CE, "		i = 0 // Reset generator.\n", ""))
bad("P33-near-self", "P33", (CE, "c.knnSearchFunc(data[j].Vec, generator, 1)", "c.knnSearchFunc(c.vec, generator, 1)"))
bad("P33-near-first", "P33", (CE, "c.knnSearchFunc(data[j].Vec, generator, 1)", "c.knnSearchFunc(data[0].Vec, generator, 1)"))
bad("P33-receiver", "P33", (CE, "!receivers[indexes[0]].AddDataPoint(data[j])", "!receivers[j%len(receivers)].AddDataPoint(data[j])"))
bad("P33-merge-mean", "P33", (CM, "		vec := candidate.Vec()\n		gen", "		vec := cm.vec\n		gen"))
bad("P33-merge-first", "P33 P24", (CM, "for _, centroidIndex := range cm.knnSearchFunc(vec, gen, k) {", "for centroidIndex := range cm.knnSearchFunc(vec, gen, k) {"))
bad("P33-once-for-all", "P33", (CE, '''	for j := 0; j < len(data); j++ {
		i = 0 // Reset generator.
		indexes := c.knnSearchFunc(data[j].Vec, generator, 1)
''', '''	if len(data) == 0 {
		return
	}
	indexes := c.knnSearchFunc(data[0].Vec, generator, 1)
	for j := 0; j < len(data); j++ {
'''))

good("P33-switch", (CM, '''	indexes := cm.knnSearchFunc(dp.Vec, cm.centroidVecGenerator(), 1)
	if len(indexes) == 0 {
		return false
	}
''', '''	indexes := cm.knnSearchFunc(dp.Vec, cm.centroidVecGenerator(), 3)
	if !(len(indexes) > 0) {
		return false
	}
'''))
good("P33-nearest", (CM, '''	indexes := cm.knnSearchFunc(dp.Vec, cm.centroidVecGenerator(), 1)
	if len(indexes) == 0 {
		return false
	}

	// Try add to nearest centroid.
	centroid := cm.Centroids[indexes[0]]          // Abbreviation.
''', '''	index, found := cm.nearest(dp.Vec)
	if !found {
		return false
	}

	// Try add to nearest centroid.
	centroid := cm.Centroids[index] // Abbreviation.
'''), (CM, "splitOK := cm.splitCentroid(indexes[0],", "splitOK := cm.splitCentroid(index,"), (CM, "", '''
func (cm *CentroidManager) nearest(vec []float64) (int, bool) {
	if found := cm.knnSearchFunc(vec, cm.centroidVecGenerator(), 1); len(found) != 0 {
		return found[0], true
	}
	return 0, false
}
'''))
good("P33-range", (CE, '''	for j := 0; j < len(data); j++ {
		i = 0 // Reset generator.
		indexes := c.knnSearchFunc(data[j].Vec, generator, 1)
		// Put back into self if (1) search failed or (2) adder failed to add.
		if len(indexes) == 0 || !receivers[indexes[0]].AddDataPoint(data[j]) {
			c.AddDataPoint(data[j])
		}
	}''', '''	for _, dp := range data {
		i = 0 // Reset generator.
		given := false
		for _, best := range c.knnSearchFunc(dp.Vec, generator, 1)[:] {
			given = receivers[best].AddDataPoint(dp)
			break
		}
		if !given {
			c.AddDataPoint(dp)
		}
	}'''))
good("P33-fallback", (CE, '''		if len(indexes) == 0 || !receivers[indexes[0]].AddDataPoint(data[j]) {
			c.AddDataPoint(data[j])
		}
''', '''		var to common.DataPointReceiver = c
		if len(indexes) != 0 {
			to = receivers[indexes[0]]
		}
		if !to.AddDataPoint(data[j]) && len(indexes) != 0 {
			c.AddDataPoint(data[j])
		}
'''))
