// Package bbolt is a model of the parts of go.etcd.io/bbolt an application
// sees: ordered buckets, snapshots for readers, one writer, file locks. It is
// used in the symbolic encoding only; replays use the real library.
package bbolt

import (
	"bytes"
	"errors"
	"io"
	"os"
	"time"
)

var (
	ErrDatabaseNotOpen    = errors.New("database not open")
	ErrDatabaseOpen       = errors.New("database already open")
	ErrInvalid            = errors.New("invalid database")
	ErrVersionMismatch    = errors.New("version mismatch")
	ErrChecksum           = errors.New("checksum error")
	ErrTimeout            = errors.New("timeout")
	ErrTxNotWritable      = errors.New("tx not writable")
	ErrTxClosed           = errors.New("tx closed")
	ErrDatabaseReadOnly   = errors.New("database is in read-only mode")
	ErrBucketNotFound     = errors.New("bucket not found")
	ErrBucketExists       = errors.New("bucket already exists")
	ErrBucketNameRequired = errors.New("bucket name required")
	ErrKeyRequired        = errors.New("key required")
	ErrKeyTooLarge        = errors.New("key too large")
	ErrValueTooLarge      = errors.New("value too large")
	ErrIncompatibleValue  = errors.New("incompatible value")
)

const (
	MaxKeySize           = 32768
	MaxValueSize         = (1 << 31) - 2
	DefaultFillPercent   = 0.5
	DefaultMaxBatchSize  = 1000
	DefaultMaxBatchDelay = 10 * time.Millisecond
	DefaultAllocSize     = 16 * 1024 * 1024
	FreelistArrayType    = FreelistType("array")
	FreelistMapType      = FreelistType("hashmap")
)

type FreelistType string

type Options struct {
	Timeout         time.Duration
	NoGrowSync      bool
	NoFreelistSync  bool
	FreelistType    FreelistType
	ReadOnly        bool
	MmapFlags       int
	InitialMmapSize int
	PageSize        int
	NoSync          bool
	OpenFile        func(string, int, os.FileMode) (*os.File, error)
	Mlock           bool
}

var DefaultOptions = &Options{}

type kv struct{ k, v []byte }

type table struct {
	name []byte
	kvs  []kv
	seq  uint64
	hint int
}

// store is the content of one database file.
type store struct {
	tables  []*table
	readers int
	writer  bool
	version byte
}

var stores []*store

type DB struct {
	StrictMode     bool
	NoSync         bool
	NoGrowSync     bool
	NoFreelistSync bool
	MaxBatchSize   int
	MaxBatchDelay  time.Duration
	AllocSize      int
	path           string
	file           *os.File
	readOnly       bool
	st             *store
	rw             *Tx
}

type Stats struct{ TxN, OpenTxN, FreePageN, PendingPageN, FreeAlloc, FreelistInuse int }
type TxStats struct{}
type BucketStats struct{ KeyN, Depth, LeafInuse int }
type Info struct{ Data, PageSize int }

func block() {
	for {
	}
}

func Open(path string, mode os.FileMode, options *Options) (*DB, error) {
	if options == nil {
		options = DefaultOptions
	}
	db := &DB{readOnly: options.ReadOnly, path: path}
	flag := os.O_RDWR
	if db.readOnly {
		flag = os.O_RDONLY
	}
	open := options.OpenFile
	if open == nil {
		open = os.OpenFile
	}
	f, err := open(path, flag|os.O_CREATE, mode)
	if err != nil {
		return nil, err
	}
	db.file = f
	fi, err := f.Stat()
	if err != nil {
		f.Close()
		return nil, err
	}
	if fi.Size() == 0 {
		// the page header; fails on a read-only handle
		if _, err := f.WriteAt([]byte{'b', 'o', 'l', 't', 'm', 'd', byte(len(stores)), 0}, 0); err != nil {
			f.Close()
			return nil, err
		}
		stores = append(stores, &store{})
		db.st = stores[len(stores)-1]
	} else {
		var h [8]byte
		n, err := f.ReadAt(h[:], 0)
		if err != nil || n != 8 || string(h[:6]) != "boltmd" || int(h[6]) >= len(stores) {
			f.Close()
			return nil, ErrInvalid
		}
		db.st = stores[h[6]]
	}
	if db.st.writer || !db.readOnly && db.st.readers > 0 {
		if options.Timeout > 0 {
			f.Close()
			return nil, ErrTimeout
		}
		block()
	}
	if db.readOnly {
		db.st.readers++
	} else {
		db.st.writer = true
	}
	return db, nil
}

func (db *DB) Path() string     { return db.path }
func (db *DB) String() string   { return db.path }
func (db *DB) GoString() string { return db.path }
func (db *DB) IsReadOnly() bool { return db.readOnly }
func (db *DB) Sync() error      { return nil }
func (db *DB) Stats() Stats     { return Stats{} }
func (db *DB) Info() *Info      { return &Info{} }

func (db *DB) Close() error {
	if db.st == nil {
		return nil
	}
	if db.rw != nil {
		block()
	}
	if db.readOnly {
		db.st.readers--
	} else {
		db.st.writer = false
	}
	db.st = nil
	return db.file.Close()
}

func (db *DB) Begin(writable bool) (*Tx, error) {
	if writable && db.readOnly {
		return nil, ErrDatabaseReadOnly
	}
	if writable && db.rw != nil {
		block()
	}
	if db.st == nil {
		return nil, ErrDatabaseNotOpen
	}
	tx := &Tx{db: db, writable: writable}
	for _, t := range db.st.tables {
		if writable {
			t = &table{name: t.name, kvs: append([]kv(nil), t.kvs...), seq: t.seq}
		}
		tx.tables = append(tx.tables, t)
	}
	if writable {
		db.rw = tx
	}
	return tx, nil
}

func (db *DB) Update(fn func(*Tx) error) error {
	t, err := db.Begin(true)
	if err != nil {
		return err
	}
	done := false
	defer func() {
		if !done && t.db != nil {
			t.rollback()
		}
	}()
	t.managed = true
	err = fn(t)
	t.managed = false
	done = true
	if err != nil {
		t.Rollback()
		return err
	}
	return t.Commit()
}

func (db *DB) Batch(fn func(*Tx) error) error { return db.Update(fn) }

func (db *DB) View(fn func(*Tx) error) error {
	t, err := db.Begin(false)
	if err != nil {
		return err
	}
	t.managed = true
	err = fn(t)
	t.managed = false
	if err != nil {
		t.Rollback()
		return err
	}
	return t.Rollback()
}

type Tx struct {
	WriteFlag int
	db        *DB
	writable  bool
	managed   bool
	tables    []*table
	onCommit  []func()
}

func (tx *Tx) ID() int            { return 0 }
func (tx *Tx) DB() *DB            { return tx.db }
func (tx *Tx) Size() int64        { return 0 }
func (tx *Tx) Writable() bool     { return tx.writable }
func (tx *Tx) Stats() TxStats     { return TxStats{} }
func (tx *Tx) OnCommit(fn func()) { tx.onCommit = append(tx.onCommit, fn) }

func (tx *Tx) find(name []byte) *table {
	for _, t := range tx.tables {
		if bytes.Equal(t.name, name) {
			return t
		}
	}
	return nil
}

func (tx *Tx) Bucket(name []byte) *Bucket {
	t := tx.find(name)
	if t == nil {
		return nil
	}
	return &Bucket{tx: tx, t: t}
}

func (tx *Tx) CreateBucket(name []byte) (*Bucket, error) {
	if tx.db == nil {
		return nil, ErrTxClosed
	}
	if !tx.writable {
		return nil, ErrTxNotWritable
	}
	if len(name) == 0 {
		return nil, ErrBucketNameRequired
	}
	if tx.find(name) != nil {
		return nil, ErrBucketExists
	}
	t := &table{name: append([]byte(nil), name...)}
	tx.tables = append(tx.tables, t)
	return &Bucket{tx: tx, t: t}, nil
}

func (tx *Tx) CreateBucketIfNotExists(name []byte) (*Bucket, error) {
	b, err := tx.CreateBucket(name)
	if err == ErrBucketExists {
		return tx.Bucket(name), nil
	}
	return b, err
}

func (tx *Tx) DeleteBucket(name []byte) error {
	if tx.db == nil {
		return ErrTxClosed
	}
	if !tx.writable {
		return ErrTxNotWritable
	}
	for i, t := range tx.tables {
		if bytes.Equal(t.name, name) {
			tx.tables = append(append([]*table(nil), tx.tables[:i]...), tx.tables[i+1:]...)
			return nil
		}
	}
	return ErrBucketNotFound
}

func (tx *Tx) ForEach(fn func(name []byte, b *Bucket) error) error {
	for _, t := range tx.tables {
		if err := fn(t.name, &Bucket{tx: tx, t: t}); err != nil {
			return err
		}
	}
	return nil
}

func (tx *Tx) Commit() error {
	if tx.managed {
		panic("managed tx commit not allowed")
	}
	if tx.db == nil {
		return ErrTxClosed
	}
	if !tx.writable {
		return ErrTxNotWritable
	}
	// only now the values are copied
	for _, t := range tx.tables {
		for i := range t.kvs {
			t.kvs[i].v = clone(t.kvs[i].v)
		}
	}
	tx.db.st.tables = tx.tables
	tx.db.st.version++
	if _, err := tx.db.file.WriteAt([]byte{tx.db.st.version}, 7); err != nil {
		tx.rollback()
		return err
	}
	tx.rollback()
	for _, f := range tx.onCommit {
		f()
	}
	return nil
}

func (tx *Tx) Rollback() error {
	if tx.managed {
		panic("managed tx rollback not allowed")
	}
	if tx.db == nil {
		return ErrTxClosed
	}
	tx.rollback()
	return nil
}

func (tx *Tx) rollback() {
	if tx.writable {
		tx.db.rw = nil
	}
	tx.db = nil
	tx.tables = nil
}

func (tx *Tx) WriteTo(w io.Writer) (int64, error) { panic("not modelled") }

type Bucket struct {
	FillPercent float64
	tx          *Tx
	t           *table
}

func (b *Bucket) Tx() *Tx        { return b.tx }
func (b *Bucket) Writable() bool { return b.tx.writable }
func (b *Bucket) Cursor() *Cursor {
	_ = b.tx
	return &Cursor{bucket: b}
}
func (b *Bucket) Bucket(name []byte) *Bucket { _ = b.tx; return nil }
func (b *Bucket) Sequence() uint64           { return b.t.seq }
func (b *Bucket) NextSequence() (uint64, error) {
	b.t.seq++
	return b.t.seq, nil
}
func (b *Bucket) Stats() BucketStats { return BucketStats{KeyN: len(b.t.kvs)} }

func clone(v []byte) []byte {
	c := make([]byte, len(v))
	copy(c, v)
	return c
}

func (b *Bucket) live() {
	if b.tx.db == nil {
		panic("assertion failed: tx closed")
	}
}

func (b *Bucket) lower(k []byte) int {
	if n := len(b.t.kvs); n > 16 {
		// the place behind the last insert, or a binary search
		if h := b.t.hint; h > 0 && h < n && bytes.Compare(b.t.kvs[h-1].k, k) < 0 && bytes.Compare(b.t.kvs[h].k, k) >= 0 {
			return h
		}
		lo, hi := 0, n
		for lo < hi {
			m := (lo + hi) / 2
			if bytes.Compare(b.t.kvs[m].k, k) < 0 {
				lo = m + 1
			} else {
				hi = m
			}
		}
		return lo
	}
	for i := range b.t.kvs {
		if bytes.Compare(b.t.kvs[i].k, k) >= 0 {
			return i
		}
	}
	return len(b.t.kvs)
}

func (b *Bucket) Get(k []byte) []byte {
	b.live()
	i := b.lower(k)
	if i < len(b.t.kvs) && bytes.Equal(b.t.kvs[i].k, k) {
		return b.t.kvs[i].v
	}
	return nil
}

func (b *Bucket) Put(k, v []byte) error {
	if b.tx.db == nil {
		return ErrTxClosed
	}
	if !b.Writable() {
		return ErrTxNotWritable
	}
	if len(k) == 0 {
		return ErrKeyRequired
	}
	if len(k) > MaxKeySize {
		return ErrKeyTooLarge
	}
	if int64(len(v)) > MaxValueSize {
		return ErrValueTooLarge
	}
	k = clone(k)
	if v == nil {
		v = []byte{}
	}
	i := b.lower(k)
	if i < len(b.t.kvs) && bytes.Equal(b.t.kvs[i].k, k) {
		b.t.kvs[i].v = v
		return nil
	}
	b.t.kvs = append(b.t.kvs, kv{})
	for j := len(b.t.kvs) - 1; j > i; j-- {
		b.t.kvs[j] = b.t.kvs[j-1]
	}
	b.t.kvs[i] = kv{k, v}
	b.t.hint = i + 1
	return nil
}

func (b *Bucket) Delete(k []byte) error {
	if b.tx.db == nil {
		return ErrTxClosed
	}
	if !b.Writable() {
		return ErrTxNotWritable
	}
	i := b.lower(k)
	if i < len(b.t.kvs) && bytes.Equal(b.t.kvs[i].k, k) {
		b.t.kvs = append(append([]kv(nil), b.t.kvs[:i]...), b.t.kvs[i+1:]...)
	}
	return nil
}

func (b *Bucket) ForEach(fn func(k, v []byte) error) error {
	if b.tx.db == nil {
		return ErrTxClosed
	}
	c := b.Cursor()
	for k, v := c.First(); k != nil; k, v = c.Next() {
		if err := fn(k, v); err != nil {
			return err
		}
	}
	return nil
}

// Cursor follows the positions of bbolt 1.3.6 on a single page.
type Cursor struct {
	bucket *Bucket
	pos    int
	set    bool
}

func (c *Cursor) Bucket() *Bucket { return c.bucket }

func (c *Cursor) at() ([]byte, []byte) {
	t := c.bucket.t
	if c.pos >= len(t.kvs) || c.pos < 0 {
		return nil, nil
	}
	return t.kvs[c.pos].k, t.kvs[c.pos].v
}

func (c *Cursor) First() ([]byte, []byte) {
	c.bucket.live()
	c.pos, c.set = 0, true
	return c.at()
}

func (c *Cursor) Last() ([]byte, []byte) {
	c.bucket.live()
	c.pos, c.set = len(c.bucket.t.kvs)-1, true
	return c.at()
}

func (c *Cursor) Next() ([]byte, []byte) {
	c.bucket.live()
	if !c.set || c.pos >= len(c.bucket.t.kvs)-1 {
		return nil, nil
	}
	c.pos++
	return c.at()
}

func (c *Cursor) Prev() ([]byte, []byte) {
	c.bucket.live()
	if !c.set {
		return nil, nil
	}
	if c.pos <= 0 {
		c.set = false
		return nil, nil
	}
	c.pos--
	return c.at()
}

func (c *Cursor) Seek(k []byte) ([]byte, []byte) {
	c.bucket.live()
	c.set = true
	c.pos = c.bucket.lower(k)
	return c.at()
}

func (c *Cursor) Delete() error {
	if c.bucket.tx.db == nil {
		return ErrTxClosed
	}
	if !c.bucket.Writable() {
		return ErrTxNotWritable
	}
	k, _ := c.at()
	return c.bucket.Delete(k)
}

// VerifRelease drops all locks, as the end of a process does.
func VerifRelease() {
	for _, s := range stores {
		s.readers, s.writer = 0, false
	}
}
