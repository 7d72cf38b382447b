D = 'pkg/mathutils/distance.go'
VT = 'pkg/mathutils/vectools.go'

EUC = '''	for i := 0; i < len(v1); i++ {
		r += (v1[i] - v2[i]) * (v1[i] - v2[i])
	}
'''
NORM = '''	for i := 0; i < len(vec); i++ {
		x += vec[i] * vec[i]
	}
'''
DOT = '''	for i := 0; i < len(vec1); i++ {
		dot += vec1[i] * vec2[i]
	}
'''
MEAN = '''		for i := 0; i < len(res); i++ {
			res[i] += vec[i]
		}
'''
DIV = '''	for i := 0; i < len(res); i++ {
		res[i] /= n
	}

	return res, true
'''
bad('P27-euc-from-one', "P27", (D, EUC, EUC.replace('i := 0', 'i := len(v1) / 1000')))
bad('P27-euc-nosqrt', "P27", (D, 'return math.Sqrt(r), nil', 'if r > 1 {\n		return r, nil\n	}\n	return math.Sqrt(r), nil'))
bad('P27-euc-plus', "P27", (D, EUC, EUC.replace('(v1[i] - v2[i]) * (v1', '(v1[i] - v2[i]) * (2*v1')))
bad('P27-euc-break', "P27", (D, EUC, EUC.replace('r += (', 'if r > 1e9 {\n			break\n		}\n		r += (')))
bad('P27-euc-skip', "P27", (D, EUC, EUC.replace('		r += (', '		if v2[i] == 0 {\n			continue\n		}\n		r += (')))
bad('P27-euc-len', "P27 P08", (D, '	if len(v1) != len(v2) {\n		return 0, errors.New("distance', '	if len(v1) > len(v2) {\n		return 0, errors.New("distance'))
bad('P27-norm-last', "P27", (D, NORM, NORM.replace('i < len(vec)', 'i+1 < len(vec)')))
bad('P27-norm-abs', "P27", (D, NORM, NORM.replace('vec[i] * vec[i]', 'math.Abs(vec[i])')))
bad('P27-cos-one-norm', "P27", (D, 'dot / norm1 / norm2, nil', 'dot / norm1 / norm1, nil'))
bad('P27-cos-guard-one', "P27 P25", (D, 'if norm1 == 0 || norm2 == 0 {', 'if norm1 == 0 && norm2 == 0 {'))
bad('P27-cos-zero-for-small', "P27", (D, 'if norm1 == 0 || norm2 == 0 {', 'if norm1 < 1e-3 || norm2 == 0 {'))
bad('P27-cos-zero-one', "P27", (D, 'norm2 == 0 {\n		return 0, nil', 'norm2 == 0 {\n		return 1, nil'))
bad('P27-mean-count', "P27 P12", (VT, '	n := 1.\n', '	n := 0.\n'))
bad('P27-mean-skip', "P27 P12", (VT, '		for i := 0; i < len(res); i++ {\n			res[i] += vec[i]', '		for i := 0; i < len(res); i++ {\n			if vec[i] < 0 {\n				continue\n			}\n			res[i] += vec[i]'))
bad('P27-mean-stop', "P27", (VT, '		n += 1\n', '		n += 1\n		if n > 4096 {\n			break\n		}\n'))
bad('P27-mean-skipcount', "P27", (VT, '		if len(vec) != len(res) {\n			return res, false', '		if len(vec) != len(res) {\n			n += 1\n			continue'))
bad('P27-mean-nocopy', "P27", (VT, '	copy(res, vec)\n', '	copy(res[1:], vec)\n'))
bad('P27-muls', "P27", (VT, 'res[i] = v * scalar', 'res[i] = v * scalar * scalar / scalar * 2 / 1'))
bad('P27-sub-order', "P27", (VT, 'res[i] = a[i] - b[i]', 'res[i] = b[i] - a[i]'))
bad('P27-add-partial', "P27", (VT, '''	res := make([]float64, len(a))
	for i := 0; i < len(a); i++ {
		res[i] = a[i] + b[i]''', '''	res := make([]float64, len(a))
	for i := 0; i < len(a)&^1; i++ {
		res[i] = a[i] + b[i]'''))

good('P27-euc-diff', (D, EUC, '''	for i, x := range v1 {
		d := x - v2[i]
		r += d * d
	}
'''))
good('P27-euc-pow', (D, EUC, '''	for i := range v2 {
		r = r + math.Pow(v2[i]-v1[i], 2)
	}
'''))
good('P27-dot-helper', (D, '''	var dot float64
''' + DOT + '	return dot / norm1 / norm2, nil\n', '''	return dotProduct(vec1, vec2) / (norm1 * norm2), nil
'''), (D, '	var x float64\n' + NORM + '	return math.Sqrt(x)\n', '	return math.Sqrt(dotProduct(vec, vec))\n'), (D, '// CosineSimilarity finds', '''func dotProduct(a, b []float64) float64 {
	sum := 0.0
	for i := range a {
		sum += a[i] * b[i]
	}
	return sum
}

// CosineSimilarity finds'''))
good('P27-cos-one-pass', (D, '	norm1, norm2 := norm(vec1), norm(vec2)\n	if norm1 == 0 || norm2 == 0 {\n		return 0, nil\n	}\n	var dot float64\n' + DOT + '	return dot / norm1 / norm2, nil\n', '''	var dot, n1, n2 float64
	for i := range vec1 {
		dot += vec1[i] * vec2[i]
		n1 += vec1[i] * vec1[i]
		n2 += vec2[i] * vec2[i]
	}
	if n1 == 0 || n2 == 0 {
		return 0, nil
	}
	return dot / (math.Sqrt(n1) * math.Sqrt(n2)), nil
'''), (D, '// norm computes', 'var _ = norm\n\n// norm computes'))
good('P27-mean-helpers', (VT, '		if len(vec) != len(res) {\n			return res, false\n		}\n' + MEAN, '''		sum, ok := VecAdd(res, vec)
		if !ok {
			return res, false
		}
		res = sum
'''), (VT, DIV, '	return VecDivScalar(res, n), true\n'))
good('P27-mean-append', (VT, '	res := make([]float64, len(vec))\n	copy(res, vec)\n', '	res := append([]float64{}, vec...)\n'), (VT, DIV, '	for i := range res {\n		res[i] = res[i] / n\n	}\n	return res, true\n'))
good('P27-mean-int', (VT, '	n := 1.\n', '	n := 1\n'), (VT, '		n += 1\n', '		n++\n'), (VT, DIV, DIV.replace('/= n', '/= float64(n)')))
good('P27-mean-for', (VT, '	for {\n		vec, cont := generator()\n		if !cont {\n			break\n		}\n', '	for vec, cont = generator(); cont; vec, cont = generator() {\n'))
good('P27-append-build', (VT, '''	res := make([]float64, len(vec))
	for i, v := range vec {
		res[i] = v * scalar
	}
''', '''	res := make([]float64, 0, len(vec))
	for _, v := range vec {
		res = append(res, v*scalar)
	}
'''))
good('P27-sub-apply', (VT, '''	if len(a) != len(b) {
		return nil, false
	}
	res := make([]float64, len(a))
	for i := 0; i < len(a); i++ {
		res[i] = a[i] - b[i]
	}
	return res, true
}''', '''	return VecAdd(a, VecMulScalar(b, -1))
}'''))
