package common

// verifTimes yields timestamps that are interesting for a window or a second of the given length
func verifStep(v *verifRun, size int64) int64 {
	if size < 0 {
		size = -size
	}
	switch v.Intn(7) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return size
	case 3:
		return size + 1
	case 4:
		if size > 0 {
			return size - 1
		}
		return 0
	case 5:
		if size > 0 {
			return v.Int63n(size)
		}
		return int64(v.Intn(3))
	}
	if size > 0 && size < 1<<60 {
		return v.Int63n(3*size + 2)
	}
	return int64(v.Intn(5))
}
