K = 'pkg/searchutils/knn.go'
CE = 'pkg/kmeans/centroid/centroid.go'
CM = 'pkg/kmeans/centroidmanager/cmanager.go'

ERR = '''		if err != nil {
			i++
			continue
		}
'''
bad('P18-skip-uncounted', "P18", (K, ERR, '		if err != nil {\n			continue\n		}\n'))
bad('P18-stop-on-error', "P18", (K, ERR, '		if err != nil {\n			break\n		}\n'))
bad('P18-error-scored', "P18", (K, ERR, '		if err != nil {\n			score = 0\n		}\n'))
bad('P18-sentinel-zero', "P18", (K, '	similarity := math.MaxFloat64\n', '	similarity := math.MaxFloat64\n	if !args.Ascending {\n		similarity = 0\n	}\n'))
bad('P18-sentinel-smallest', "P18", (K, '		similarity *= -1\n', '		similarity = math.SmallestNonzeroFloat64\n'))
bad('P18-sentinel-unit', "P18", (K, 'similarity := math.MaxFloat64', 'similarity := math.Sqrt(1e12)'))
bad('P18-bubble-ge-unset', "P18", (K, 'if (insertee.score > items[i].score || !items[i].set) && !ascending {', 'if (insertee.score > items[i].score || items[i].set) && !ascending {'))
bad('P18-bubble-lt', "P18", (K, 'if (insertee.score < items[i].score || !items[i].set) && ascending {', 'if (insertee.score > items[i].score || !items[i].set) && ascending {'))
bad('P18-bubble-overwrites', "P18", (K, '''&& ascending {
			*insertee, items[i] = items[i], *insertee
''', '''&& ascending {
			items[i] = *insertee
'''))
bad('P18-bubble-skips-last', "P18", (K, 'for i := 0; i < len(items); i++ {\n		// Clar', 'for i := 0; i < len(items)-1 || i == 0 && len(items) > 0; i++ {\n		// Clar'))
bad('P18-bubble-stops', "P18", (K, '''&& ascending {
			*insertee, items[i] = items[i], *insertee
''', '''&& ascending {
			*insertee, items[i] = items[i], *insertee
			if i > 8 {
				break
			}
'''))
bad('P18-early-stop', "P18", (K, '		if !cont {', '		if !cont || len(res) > 0 && len(res) == args.K && res[0].score == 0 {'))
bad('P18-full-skip', "P18", (K, '		newSlot := &resultItem', '''		if len(res) == args.K && len(res) > 4 && args.Ascending && score > res[len(res)/2].score {
			i++
			continue
		}
		newSlot := &resultItem'''))
bad('P18-res-order', "P18", (K, '	for i := 0; i < len(items); i++ {\n		if items[i].set {', '	for i := len(items) - 1; i >= 0; i-- {\n		if items[i].set {'))
bad('P18-res-drops-negative', "P18", (K, '		if items[i].set {', '		if items[i].set && items[i].score >= 0 {'))
bad('P18-knncos-asc', "P18", (K, '''		Ascending:        false,
		DistFunc:         mathutils.CosineSimilarity,''', '''		Ascending:        k > 1000,
		DistFunc:         mathutils.CosineSimilarity,'''))
bad('P18-kfneuc-cos', "P18", (K, '''		Ascending:        false,
		DistFunc:         mathutils.EuclideanDistance,''', '''		Ascending:        true,
		DistFunc:         mathutils.CosineSimilarity,'''))
bad('P18-dist-other', "P18", (K, 'args.DistFunc(args.TargetVec, v)', 'args.DistFunc(v, v)'))
bad('P18-k-one-more', "P18", (K, 'len(res) < args.K {', 'len(res)+1 < args.K {'))
bad('P18-wiring', "P18", (CE, '		kfnSearchFunc: args.KFNSearchFunc,', '		kfnSearchFunc: args.KNNSearchFunc,'))
bad('P18-wiring-cm', "P18", (CM, '		KFNSearchFunc: cm.kfnSearchFunc,', '		KFNSearchFunc: cm.knnSearchFunc,'))
bad('P18-drain-nearest', "P18", (CE, 'c.kfnSearchFunc(c.vec', 'c.knnSearchFunc(c.vec'))
bad('P18-lookup-own', "P18", (CE, 'c.knnSearchFunc(vec, c.dataPoint', 'c.knnSearchFunc(c.vec, c.dataPoint'))
bad('P18-cm-add-furthest', "P18", (CM, 'cm.knnSearchFunc(dp.Vec, cm.c', 'cm.kfnSearchFunc(dp.Vec, cm.c'))

good('P18-better', (K, '''		// Clarification: '|| !items[i].set' specifies that score can be set if the item is inactive.
		if (insertee.score > items[i].score || !items[i].set) && !ascending {
			*insertee, items[i] = items[i], *insertee
		}
		// Clarification: '|| !items[i].set' specifies that score can be set if the item is inactive.
		if (insertee.score < items[i].score || !items[i].set) && ascending {
			*insertee, items[i] = items[i], *insertee
		}
''', '''		if !items[i].set || better(insertee.score, items[i].score, ascending) {
			tmp := items[i]
			items[i] = *insertee
			*insertee = tmp
		}
'''), (K, '// resItems2Indexes simply', '''func better(a, b float64, ascending bool) bool {
	if ascending {
		return a < b
	}
	return a > b
}

// resItems2Indexes simply'''))
good('P18-range', (K, 'for i := 0; i < len(items); i++ {\n		// Clar', 'for i := range items {\n		// Clar'), (K, '''	for i := 0; i < len(items); i++ {
		if items[i].set {
			res = append(res, items[i].index)
		}
	}''', '''	for _, item := range items {
		if !item.set {
			continue
		}
		res = append(res, item.index)
	}'''))
good('P18-one-bubble', (K, '''		if args.Ascending && score < similarity {
			bubble(newSlot, res, true)
		}
		if !args.Ascending && score > similarity {
			bubble(newSlot, res, false)
		}
''', '		bubble(newSlot, res, args.Ascending)\n'))
good('P18-for-post', (K, '	i := 0\n	for {\n		// Next', '	for i := 0; ; i++ {\n		// Next'), (K, ERR, '		if err != nil {\n			continue\n		}\n'), (K, '			bubble(newSlot, res, false)\n		}\n		i++\n', '			bubble(newSlot, res, false)\n		}\n'))
good('P18-consider', (K, '''		newSlot := &resultItem{i, score, true}
		if len(res) < args.K {
			// Unused slot with the worst score.
			res = append(res, resultItem{score: similarity})
		}
		if args.Ascending && score < similarity {
			bubble(newSlot, res, true)
		}
		if !args.Ascending && score > similarity {
			bubble(newSlot, res, false)
		}
		i++
''', '''		res = consider(res, resultItem{index: i, score: score, set: true}, args, similarity)
		i++
'''), (K, '// KNNCos finds', '''func consider(res []resultItem, item resultItem, args KNNBruteArgs, worst float64) []resultItem {
	if len(res) < args.K {
		res = append(res, resultItem{score: worst})
	}
	within := item.score < worst
	if !args.Ascending {
		within = item.score > worst
	}
	if within {
		bubble(&item, res, args.Ascending)
	}
	return res
}

// KNNCos finds'''))
good('P18-k-zero', (K, '	res := make([]resultItem, 0)\n', '	if args.K <= 0 {\n		return []int{}\n	}\n	res := make([]resultItem, 0)\n'))
good('P18-prefab-helper', (K, '''	return KNNBrute(KNNBruteArgs{
		TargetVec:        targetVec,
		VecPoolGenerator: vecPoolGenerator,
		K:                k,
		Ascending:        true,
		DistFunc:         mathutils.CosineSimilarity,
	})
}''', '''	return search(targetVec, vecPoolGenerator, k, true, mathutils.CosineSimilarity)
}

func search(targetVec []float64, gen func() ([]float64, bool), k int, asc bool, f func(v1, v2 []float64) (float64, error)) []int {
	var args KNNBruteArgs
	args.TargetVec = targetVec
	args.VecPoolGenerator = gen
	args.K = k
	args.Ascending = asc
	args.DistFunc = f
	return KNNBrute(args)
}'''))
good('P18-expire-first', (CE, '	indexes := c.kfnSearchFunc(c.vec, c.dataPointVecGenerator(), n)\n', '	gen := c.dataPointVecGenerator()\n	indexes := c.kfnSearchFunc(c.vec, gen, n)\n'))
