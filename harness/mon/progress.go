package mon

import (
	"encoding/binary"
	"os"
	"syscall"
	"time"
)

// Progress is a memory-mapped file through which the child tells its parent
// which case every worker is executing, so that a hang or a fatal runtime
// error can be attributed to a single case.
type Progress struct {
	m []byte
}

const slotSize = 96
const maxSlots = 64

func OpenProgress(path string, create bool) (*Progress, error) {
	flags := os.O_RDWR
	if create {
		flags |= os.O_CREATE | os.O_TRUNC
	}
	f, err := os.OpenFile(path, flags, 0o644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if create {
		if err := f.Truncate(slotSize * maxSlots); err != nil {
			return nil, err
		}
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, slotSize*maxSlots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &Progress{m: m}, nil
}

func (p *Progress) Begin(slot int, group string, idx int) {
	if p == nil || slot >= maxSlots {
		return
	}
	b := p.m[slot*slotSize : (slot+1)*slotSize]
	binary.LittleEndian.PutUint64(b[0:], 0)
	binary.LittleEndian.PutUint64(b[8:], uint64(idx))
	binary.LittleEndian.PutUint64(b[16:], uint64(time.Now().UnixNano()))
	n := copy(b[32:], group)
	b[24] = byte(n)
	binary.LittleEndian.PutUint64(b[0:], 1)
}

func (p *Progress) End(slot int) {
	if p == nil || slot >= maxSlots {
		return
	}
	binary.LittleEndian.PutUint64(p.m[slot*slotSize:], 0)
}

// InFlight describes one running case.
type InFlight struct {
	Group string
	Case  int
	Since time.Time
}

func (p *Progress) List() []InFlight {
	var out []InFlight
	for s := 0; s < maxSlots; s++ {
		b := p.m[s*slotSize : (s+1)*slotSize]
		if binary.LittleEndian.Uint64(b) != 1 {
			continue
		}
		out = append(out, InFlight{
			Group: string(b[32 : 32+int(b[24])]),
			Case:  int(binary.LittleEndian.Uint64(b[8:])),
			Since: time.Unix(0, int64(binary.LittleEndian.Uint64(b[16:]))),
		})
	}
	return out
}

// Close unmaps the file.
func (p *Progress) Close() { syscall.Munmap(p.m) }
