package sessions

import (
	"strings"
	"testing"

	"github.com/wujiu2020/strip/zzverif/vh"
)

func TestVerif_P19_sid(t *testing.T) {
	seen := map[string]bool{}
	vh.Run(t, "P19", 1, 0, func(c *vh.Case) {
		sid := CreateSid()
		c.Log("sid %q", sid)
		c.Check(len(sid) == 20 && strings.Trim(sid, "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ") == "", "the id's shape")
		c.Check(!seen[sid], "the id was made before")
		if len(seen) < 100000 {
			seen[sid] = true
		}
	})
}
