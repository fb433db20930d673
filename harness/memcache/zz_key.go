package memcache

import "github.com/QuangTung97/go-memcache/memcache/zzverif"

func zzKeyValid(k string) error {
	if len(k) == 0 {
		return ErrKeyEmpty
	}
	for i := 0; i < len(k); i++ {
		if k[i] >= 0x7f || k[i] <= 0x20 {
			return ErrInvalidKeyFormat
		}
	}
	if len(k) > 250 {
		return ErrKeyTooLong
	}
	return nil
}

// ZZ_Key compares validateKeyFormat with the specification on every key of length n.
func ZZ_Key(n int) {
	b := make([]byte, n)
	for i := range b {
		b[i] = zzverif.Byte("k")
	}
	k := string(b)
	got, want := validateKeyFormat(k), zzKeyValid(k)
	zzverif.OutStr("k", k)
	zzverif.Assert(got == want, "key validation differs from the specification")
	if got == nil {
		zzverif.Cover("valid")
	} else {
		zzverif.Cover("invalid")
	}
}
