package mc

import "sync"

type (
	realMutex     = sync.Mutex
	realRWMutex   = sync.RWMutex
	realWaitGroup = sync.WaitGroup
)
