package github.com/wujiu2020/strip/params

# ---- P35: the JSON body ----
# what the request body gave, and what was decoded into which target
ghost reads int
ghost readOf any
ghost readErr error
ghost bodyText string
ghost decodes int
ghost decText string
ghost decInto any
ghost decNums bool
ghost decErr error
ghost nums arr[*json.Decoder->bool]
# the text a reader over bytes, or a decoder over it, reads
uninterp func source(r any) string
uninterp func decSource(d *json.Decoder) string

extern io/ioutil.ReadAll(r) (b, err)
  requires stream: r != nil
  modifies reads, readOf, readErr, bodyText
  new
  effect reads = old(reads) + 1
  effect readOf = r
  ensures readErr == err && bytesstr(b) == bodyText && len(b) == len(bodyText)
extern bytes.NewReader(b) (r)
  new
  ensures r != nil && fresh(r) && source(r) == bytesstr(b)
extern encoding/json.NewDecoder(r) (d)
  modifies nums
  new
  effect nums = update(old(nums), d, false)
  ensures d != nil && fresh(d) && decSource(d) == source(r)
extern (*encoding/json.Decoder).UseNumber(d)
  requires d != nil
  modifies nums
  effect nums = update(old(nums), d, true)
extern (*encoding/json.Decoder).Decode(d, v) (err)
  requires d != nil
  modifies decodes, decText, decInto, decNums, decErr
  new
  effect decodes = old(decodes) + 1
  effect decText = decSource(d)
  effect decInto = v
  effect decNums = select(old(nums), d)
  ensures decErr == err
uninterp func said(e error) string
extern fmt.Errorf(f, a) (e)
  new
  ensures e != nil
  ensures len(a) == 2 && is(a[1], string) ==> said(e) == as(a[1], string)

func (*Params).BindJsonBody(p, dest, userNumber) (err)
  props P35
  requires of: p != nil && p.req != nil && p.req.Body != nil
  modifies reads, readOf, readErr, bodyText, decodes, decText, decInto, decNums, decErr, nums
  new
  ensures body: reads == old(reads) + 1 && readOf == p.req.Body
  ensures unread: readErr != nil ==> err == readErr && decodes == old(decodes)
  ensures empty: readErr == nil && bodyText == "" ==> err == nil && decodes == old(decodes)
  ensures decoded: readErr == nil && bodyText != "" ==> decodes == old(decodes) + 1 && decText == bodyText && decInto == dest && decNums == (len(userNumber) > 0 && userNumber[0]) && (err == nil) == (decErr == nil)
  ensures quoted: readErr == nil && bodyText != "" && err != nil ==> len(said(err)) <= 512 && (len(bodyText) <= 512 ==> said(err) == bodyText)
