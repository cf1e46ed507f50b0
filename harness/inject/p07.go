package inject_test

import (
	"testing"

	"github.com/wujiu2020/strip/zzverif/vh"
)

// registrations and lookups over scope trees; functions without dependencies
func TestVerif_P07(t *testing.T) {
	vh.Run(t, "P07", 1, 0, func(c *vh.Case) {
		w := newWorld(c)
		for n := 5 + c.Intn(30); n > 0; n-- {
			switch c.Intn(6) {
			case 0, 1:
				w.register()
			case 2:
				w.exists()
			default:
				w.find()
			}
		}
	})
}
