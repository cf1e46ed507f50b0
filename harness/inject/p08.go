package inject_test

import (
	"testing"

	"github.com/wujiu2020/strip/zzverif/vh"
)

// dependency graphs with cycles and missing providers
func TestVerif_P08(t *testing.T) {
	vh.Run(t, "P08", 1, 0, func(c *vh.Case) {
		w := newWorld(c)
		for n := 3 + c.Intn(12); n > 0; n-- {
			w.register()
		}
		for n := 5 + c.Intn(30); n > 0; n-- {
			switch c.Intn(6) {
			case 0:
				w.register()
			case 1, 2:
				w.invoke()
			default:
				w.find()
			}
		}
	})
}
