package explore

import (
	"encoding/binary"
	"os"
	"sync/atomic"
	"syscall"
	"unsafe"
)

const (
	ExitHang   = 97
	ExitMemory = 98
	slotSize   = 8192
	maxSlots   = 64
)

// CrashFile is a memory-mapped file with what each worker is executing, which survives the death of the process.
type CrashFile struct {
	mem []byte
}

func OpenCrashFile(path string) (*CrashFile, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(slotSize * maxSlots); err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, slotSize*maxSlots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &CrashFile{mem}, nil
}

func (c *CrashFile) slot(i int) []byte { return c.mem[i*slotSize : (i+1)*slotSize] }

// Put records that worker i runs path of space sp with input s.
func (c *CrashFile) Put(i, sp int, path []int32, s string) {
	if i >= maxSlots {
		return
	}
	b := c.slot(i)
	n := len(path)
	if 16+4*n+len(s) > slotSize {
		if 16+4*n > slotSize {
			return
		}
		s = s[:slotSize-16-4*n]
	}
	b[0] = 0
	binary.LittleEndian.PutUint32(b[4:], uint32(sp))
	binary.LittleEndian.PutUint32(b[8:], uint32(n))
	binary.LittleEndian.PutUint32(b[12:], uint32(len(s)))
	o := 16
	for _, p := range path {
		binary.LittleEndian.PutUint32(b[o:], uint32(p))
		o += 4
	}
	copy(b[o:], s)
	b[0] = 1
}

func (c *CrashFile) Clear(i int) {
	if i < maxSlots {
		c.slot(i)[0] = 0
	}
}

func (c *CrashFile) Busy(i int) bool {
	return i < maxSlots && atomic.LoadUint32((*uint32)(unsafe.Pointer(&c.slot(i)[0])))&0xff != 0
}

// Suspect is a path that was being executed when the process died.
type Suspect struct {
	Space int
	Path  []int32
	Input string
}

func (c *CrashFile) Suspects() []Suspect {
	var out []Suspect
	for i := 0; i < maxSlots; i++ {
		b := c.slot(i)
		if b[0] != 1 {
			continue
		}
		var s Suspect
		s.Space = int(binary.LittleEndian.Uint32(b[4:]))
		n := int(binary.LittleEndian.Uint32(b[8:]))
		l := int(binary.LittleEndian.Uint32(b[12:]))
		o := 16
		for j := 0; j < n; j++ {
			s.Path = append(s.Path, int32(binary.LittleEndian.Uint32(b[o:])))
			o += 4
		}
		s.Input = string(b[o : o+l])
		out = append(out, s)
	}
	return out
}

func exitWith(c *CrashFile, code int) { os.Exit(code) }
