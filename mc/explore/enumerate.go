package explore

// Enumerate runs body once for every sequence of choices, in order.
func Enumerate(body func(*T)) {
	var path []int32
	for {
		t := &T{path: path, width: make([]int32, len(path))}
		body(t)
		path = t.path
		i := len(path) - 1
		for ; i >= 0 && path[i]+1 >= t.width[i]; i-- {
		}
		if i < 0 {
			return
		}
		path = append([]int32(nil), path[:i+1]...)
		path[i]++
	}
}
