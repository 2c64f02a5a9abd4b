package mc

import "sync"

var memo sync.Map

// NoMemo makes Memo compute every time, as the code under test does.
var NoMemo = false

// Memo returns what the first call with this id computed.
func Memo[T any](id int, f func() T) T {
	if NoMemo {
		return f()
	}
	if v, ok := memo.Load(id); ok {
		return v.(T)
	}
	v, _ := memo.LoadOrStore(id, f())
	return v.(T)
}
