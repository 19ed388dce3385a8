package sim

import (
	"fmt"
	"sort"
	"sync"

	"github.com/waj334/tinygo-mqtt/mqtt/storage"
)

// StoreEvent is one storage call.
type StoreEvent struct {
	Op  string
	ID  uint16
	Err error
	Seq int
}

// Store is a monitored storage.Storage: a plain map that logs into the connection's event log.
type Store struct {
	mu     sync.Mutex
	m      map[uint16]any
	Conn   *Conn // for the shared sequence; may be nil
	Events []StoreEvent
	Hook   func(point string)
	Fault  func(point string) error
	OnOp   func(op string, id uint16, packet any, err error) // locked
}

func NewStore(c *Conn) *Store { return &Store{m: map[uint16]any{}, Conn: c} }

func (s *Store) done(op string, id uint16, p any, err error) error {
	seq := 0
	if s.Conn != nil {
		s.Conn.Lock()
		s.Conn.Logf("storage %s(%d) -> %v", op, id, err)
		seq = s.Conn.Seq
		s.Conn.Unlock()
	}
	s.Events = append(s.Events, StoreEvent{op, id, err, seq})
	if s.OnOp != nil {
		s.OnOp(op, id, p, err)
	}
	return err
}

func (s *Store) enter(op string) error {
	if s.Hook != nil {
		s.Hook(op)
	}
	if s.Fault != nil {
		return s.Fault(op)
	}
	return nil
}

func (s *Store) Store(id uint16, p any) error {
	if err := s.enter("Store"); err != nil {
		return err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, ok := s.m[id]; ok {
		return s.done("Store", id, p, storage.ErrDuplicateEntry)
	}
	s.m[id] = p
	return s.done("Store", id, p, nil)
}

func (s *Store) Get(id uint16) (any, error) {
	if err := s.enter("Get"); err != nil {
		return nil, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if p, ok := s.m[id]; ok {
		return p, nil
	}
	return nil, storage.ErrNoEntry
}

func (s *Store) Drop(id uint16) error {
	if err := s.enter("Drop"); err != nil {
		return err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	p, ok := s.m[id]
	if !ok {
		return s.done("Drop", id, nil, storage.ErrNoEntry)
	}
	delete(s.m, id)
	return s.done("Drop", id, p, nil)
}

// Has reports whether an entry exists, without logging.
func (s *Store) Has(id uint16) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	_, ok := s.m[id]
	return ok
}

// Snapshot returns the content.
func (s *Store) Snapshot() map[uint16]any {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := map[uint16]any{}
	for k, v := range s.m {
		r[k] = v
	}
	return r
}

// IDs lists the stored identifiers.
func (s *Store) IDs() (r []int) {
	for k := range s.Snapshot() {
		r = append(r, int(k))
	}
	sort.Ints(r)
	return
}

func (s *Store) String() string { return fmt.Sprint(s.IDs()) }

var _ storage.Storage = (*Store)(nil)

// Preset puts an entry into the storage, Unset removes one, behind the client's back.
func (s *Store) Preset(id uint16, p any) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.m[id] = p
}

func (s *Store) Unset(id uint16) {
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.m, id)
}
