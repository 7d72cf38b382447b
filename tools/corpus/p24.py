CM = 'pkg/kmeans/centroidmanager/cmanager.go'
RS = 'pkg/kmeans/rpc/server.go'
SPL = '''		cm.SplitCentroids(func(c *Centroid) bool {
			return c.LenDP() > args.DPRangeMin && c.LenDP() < args.DPRangeMax
		})
'''
MRG = SPL.replace('Split', 'Merge')
bad('P24-range-incl', 'P24', (RS, SPL, SPL.replace('LenDP() > ', 'LenDP() >= ')))
bad('P24-range-max', 'P24', (RS, MRG, MRG.replace('LenDP() < ', 'LenDP() <= ')))
bad('P24-range-or', 'P24', (RS, MRG, MRG.replace('&&', '||')))
bad('P24-range-swap', 'P24', (RS, MRG, MRG.replace('RangeMin', 'RangeX').replace('RangeMax', 'RangeMin').replace('RangeX', 'RangeMax')))
bad('P24-range-nomax', 'P24', (RS, MRG, MRG.replace('< args.DPRangeMax', '< args.DPRangeMax || args.DPRangeMax == 0 && c.LenDP() > args.DPRangeMin')))
good('P24-range-vars', (RS, SPL, '''		min, max := args.DPRangeMin, args.DPRangeMax
		cm.SplitCentroids(func(c *Centroid) bool {
			n := c.LenDP()
			if n <= min {
				return false
			}
			return n < max
		})
'''))
good('P24-range-helper', (RS, SPL, '''		cm.SplitCentroids(inRange(args.DPRangeMin, args.DPRangeMax))
'''), (RS, MRG, '''		cm.MergeCentroids(inRange(args.DPRangeMin, args.DPRangeMax))
'''), (RS, '''type StealCentroidArgs struct {''', '''func inRange(min, max int) func(*Centroid) bool {
	return func(c *Centroid) bool {
		size := c.LenDP()
		return min < size && size < max
	}
}

type StealCentroidArgs struct {'''))
bad('P24-split-break', 'P24', (CM, '''		if !split(centroid) {
			continue
		}
''', '''		if !split(centroid) {
			if len(newCentroids) > 0 {
				break
			}
			continue
		}
'''))
bad('P24-split-size', 'P24', (CM, '''		if !split(centroid) {
			continue
		}
''', '''		if !split(centroid) && centroid.LenDP() < cm.centroidDPThreshold {
			continue
		}
'''))
bad('P24-split-index', 'P24', (CM, 'cm.splitCentroid(i, centroid.LenDP()/2)', 'cm.splitCentroid(i/2*2, centroid.LenDP()/2)'))
bad('P24-split-few', 'P24', (CM, 'cm.splitCentroid(i, centroid.LenDP()/2)', 'cm.splitCentroid(i, centroid.LenDP()/2-1)'))
bad('P24-merge-self', 'P24 P01', (CM, 'if centroidIndex == i || delMarks[centroidIndex] {', 'if delMarks[centroidIndex] {'))
bad('P24-merge-twice', 'P24', (CM, 'if centroidIndex == i || delMarks[centroidIndex] {', 'if centroidIndex == i {'))
bad('P24-merge-marked', 'P24 P01', (CM, 'if !merge(candidate) || delMarks[i] {', 'if !merge(candidate) {'))
bad('P24-merge-all', 'P24', (CM, 'if !merge(candidate) || delMarks[i] {', 'if (len(delMarks) != 0 && !merge(candidate)) || delMarks[i] {'))
bad('P24-merge-keep-first', 'P24', (CM, '''	for i := len(cm.Centroids) - 1; i > -1; i-- {
		if delMarks[i] {''', '''	for i := len(cm.Centroids) - 1; i > 0; i-- {
		if delMarks[i] {'''))
bad('P24-merge-keep-some', 'P24', (CM, '''	for i := len(cm.Centroids) - 1; i > -1; i-- {
		if delMarks[i] {''', '''	for i := len(cm.Centroids) - 1; i > -1; i-- {
		if delMarks[i] && cm.Centroids[i].LenDP() == 0 && len(cm.Centroids) > 2 {'''))
bad('P24-merge-last', 'P24', (CM, '''		if !merge(candidate) || delMarks[i] {
			continue''', '''		if len(delMarks) == len(cm.Centroids)/2 {
			break
		}
		if !merge(candidate) || delMarks[i] {
			continue'''))
good('P24-merge-nested', (CM, '''		if !merge(candidate) || delMarks[i] {
			continue
		}
''', '''		if delMarks[i] {
			continue
		}
		if wanted := merge(candidate); !wanted {
			continue
		}
'''))
