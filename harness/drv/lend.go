package main

import "bytes"

// loans are the byte slices given to the code under test. They stay ours: with what is beyond them, up to their capacity, they come
// back as they were, and then we write over them.
type loans struct{ out []loan }

type loan struct{ buf, want []byte }

func (l *loans) lend(b []byte) []byte {
	if b == nil {
		return nil
	}
	buf := make([]byte, 8+len(b)+24)
	for i := range buf {
		buf[i] = byte(0xa0 + i%16)
	}
	copy(buf[8:], b)
	l.out = append(l.out, loan{buf, append([]byte(nil), buf...)})
	return buf[8 : 8+len(b) : len(buf)-8]
}

// back ends all loans, and tells whether something was written to one of them.
func (l *loans) back() (dirty bool) {
	for _, x := range l.out {
		dirty = dirty || !bytes.Equal(x.buf, x.want)
		for i := range x.buf {
			x.buf[i] ^= 0x5b
		}
	}
	l.out = l.out[:0]
	return
}
