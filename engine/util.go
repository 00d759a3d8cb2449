package main

import (
	"go/types"
	"sync"
)

type syncCache struct {
	m sync.Map
}

func newSyncCache() *syncCache { return &syncCache{} }

func (s *syncCache) get(t types.Type) string {
	if v, ok := s.m.Load(t); ok {
		return v.(string)
	}
	k := types.TypeString(t, nil)
	s.m.Store(t, k)
	return k
}
