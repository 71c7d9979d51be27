// Package zznosync has locks that the race detector does not see.
package zznosync

import (
	"runtime"
	"sync"
)

type Map = sync.Map

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	runtime.RaceDisable()
	m.m.Lock()
	runtime.RaceEnable()
}

func (m *Mutex) Unlock() {
	runtime.RaceDisable()
	m.m.Unlock()
	runtime.RaceEnable()
}

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	runtime.RaceDisable()
	m.m.Lock()
	runtime.RaceEnable()
}

func (m *RWMutex) Unlock() {
	runtime.RaceDisable()
	m.m.Unlock()
	runtime.RaceEnable()
}

func (m *RWMutex) RLock() {
	runtime.RaceDisable()
	m.m.RLock()
	runtime.RaceEnable()
}

func (m *RWMutex) RUnlock() {
	runtime.RaceDisable()
	m.m.RUnlock()
	runtime.RaceEnable()
}
