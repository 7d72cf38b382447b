A="pkg/arbiter/arbiter.go"
bad("P26-first-only","P26",(A,"		if status != sc {\n			return false\n		}\n	}\n	return true","		return status == sc\n	}\n	return true"))
bad("P26-any","P26",(A,"		if status != sc {\n			return false\n		}\n	}\n	return true","		if status == sc {\n			return true\n		}\n	}\n	return len(*s) == 0"))
bad("P26-lastwins","P26",(A,"	for _, status := range *s {\n		if status != sc {\n			return false\n		}\n	}\n	return true","	ok := true\n	for _, status := range *s {\n		ok = status == sc\n	}\n	return ok"))
bad("P26-skipneg","P26",(A,"		if status != sc {","		if status >= 0 && status != sc {"))
bad("P26-err-addr","P26",(A,"	for addr, err := range *e {\n		if err != nil {\n			return addr, err","	var last Addr\n	for addr, err := range *e {\n		prev := last\n		last = addr\n		if err != nil {\n			return prev, err"))
bad("P26-err-break","P26",(A,"	for addr, err := range *e {\n		if err != nil {\n			return addr, err\n		}\n	}","	for addr, err := range *e {\n		if err != nil {\n			return addr, err\n		}\n		if addr.Comp(Addr{}) {\n			break\n		}\n	}"))
good("P26-flag",(A,"	for _, status := range *s {\n		if status != sc {\n			return false\n		}\n	}\n	return true","	uniform := true\n	for _, status := range *s {\n		if status != sc {\n			uniform = false\n			break\n		}\n	}\n	return uniform"))
good("P26-flag-nobreak",(A,"	for _, status := range *s {\n		if status != sc {\n			return false\n		}\n	}\n	return true","	uniform := true\n	for _, status := range *s {\n		if status != sc {\n			uniform = false\n		}\n	}\n	return uniform"))
good("P26-and",(A,"	for _, status := range *s {\n		if status != sc {\n			return false\n		}\n	}\n	return true","	uniform := true\n	for _, status := range *s {\n		uniform = uniform && status == sc\n	}\n	return uniform"))
good("P26-helper",(A,"	for _, status := range *s {\n		if status != sc {\n			return false\n		}\n	}\n	return true\n}","	for _, status := range *s {\n		if differs(status, sc) {\n			return false\n		}\n	}\n	return true\n}\n\nfunc differs(a, b StatusCode) bool { return a != b }"))
good("P26-key",(A,"	for _, status := range *s {\n		if status != sc {","	for addr := range *s {\n		if (*s)[addr] != sc {"))
good("P26-continue",(A,"		if status != sc {\n			return false\n		}\n	}","		if status == sc {\n			continue\n		}\n		return false\n	}"))
good("P26-err-continue",(A,"		if err != nil {\n			return addr, err\n		}","		if err == nil {\n			continue\n		}\n		return addr, err"))
good("P26-err-named",(A,"	for addr, err := range *e {\n		if err != nil {\n			return addr, err\n		}\n	}\n	return Addr{}, nil","	var badAddr Addr\n	var badErr error\n	for addr, err := range *e {\n		if err != nil {\n			badAddr, badErr = addr, err\n			break\n		}\n	}\n	return badAddr, badErr"))
