package hcat

import (
	"bytes"
	"strings"
	"sync"

	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/common"
	"github.com/flu-network/client/zzverif/env/vos"
	"github.com/flu-network/client/zzverif/sym"
)

func sameBool(e *catalogue.IndexRecordExport, r *rec) bool {
	if e.FilePath != r.path || e.SizeInBytes != r.size || e.Sha1Hash != r.hash || e.ChunkSize != r.chunk {
		return false
	}
	if e.Progress.Size() != len(r.held) {
		return false
	}
	for i, h := range r.held {
		if e.Progress.Get(uint64(i)) != h {
			return false
		}
	}
	return true
}

// matches tells whether the catalogue holds exactly want.
func matches(c *catalogue.Cat, want []*rec) bool {
	l, err := c.ListFiles()
	sym.Assert(err == nil, "the catalogue lists its files")
	if len(l) != len(want) {
		return false
	}
	for i := range l {
		at := find(want, l[i].Sha1Hash)
		if at < 0 || !sameBool(&l[i], want[at]) {
			return false
		}
	}
	return true
}

func (w *world) clone() *world {
	return &world{c: w.c, want: cloneAll(w.want), files: w.files}
}

// start gives a world in one of a few states: share 0 and download 0 present or not, with some chunks.
func start(kind int) *world {
	w := newWorld()
	switch kind {
	case 1:
		w.share(0)
		w.register(0)
	case 2:
		w.share(0)
		w.register(0)
		w.save(0, 0)
		w.save(0, 2)
	case 3:
		w.register(1)
		w.register(0)
		w.save(0, 1)
		w.c = open()
	case 4:
		w.register(0)
		w.save(0, 0)
		w.unshare(downloads[0].hash)
	}
	return w
}

// rawOp carries out operation k without any expectation; the result tells whether it reported
// success. expect tells the same for the model and updates it.
func rawOp(c *catalogue.Cat, k int) error {
	switch k {
	case 0, 1:
		_, err := c.ShareFile(sharePath[k])
		return err
	case 2, 3:
		d := &downloads[k-2]
		_, err := c.RegisterDownload(uint64(len(d.content)), uint32(chunkCount(int64(len(d.content)), int64(d.chunk))), d.chunk, &d.hash, d.name)
		return err
	case 4, 5, 6:
		return c.SaveChunk(&downloads[0].hash, uint16(k-4), chunkData(0, k-4))
	case 7:
		return c.SaveChunk(&downloads[1].hash, 1, chunkData(1, 1))
	case 8:
		h := hashOf(shareContent[0])
		return c.UnshareFile(&h)
	case 9:
		return c.UnshareFile(&downloads[0].hash)
	}
	return nil
}

// expect applies operation k to the model.
func (w *world) expect(k int) bool {
	add := func(r *rec) bool {
		if find(w.want, r.hash) >= 0 {
			return false
		}
		w.want = append(w.want, r)
		return true
	}
	switch k {
	case 0, 1:
		n := chunkCount(int64(len(shareContent[k])), defaultChunk)
		r := &rec{path: sharePath[k], size: int64(len(shareContent[k])), hash: hashOf(shareContent[k]), chunk: defaultChunk, held: make([]bool, n), share: true}
		for i := range r.held {
			r.held[i] = true
		}
		return add(r)
	case 2, 3:
		d := &downloads[k-2]
		n := chunkCount(int64(len(d.content)), int64(d.chunk))
		return add(&rec{path: dlDir + "/" + d.name, size: int64(len(d.content)), hash: d.hash, chunk: int(d.chunk), held: make([]bool, n)})
	case 4, 5, 6:
		at := find(w.want, downloads[0].hash)
		if at < 0 {
			return false
		}
		w.want[at].held[k-4] = true
		return true
	case 7:
		at := find(w.want, downloads[1].hash)
		if at < 0 {
			return false
		}
		w.want[at].held[1] = true
		return true
	case 8, 9:
		h := downloads[0].hash
		if k == 8 {
			h = hashOf(shareContent[0])
		}
		at := find(w.want, h)
		if at < 0 {
			return false
		}
		w.want = append(append([]*rec(nil), w.want[:at]...), w.want[at+1:]...)
		return true
	}
	return true
}

// ---- K06

// crashing runs f as a process that stops in the middle of its nth change of the disk (if it gets
// that far); it tells whether f was carried out to the end.
func crashing(nth int, f func()) bool {
	done := make(chan bool, 2)
	count := 0
	vos.OnCrash = func() {
		done <- false
		<-make(chan bool) // the process is gone
	}
	vos.Crash = func(op, path string, n int) int {
		count++
		if count-1 != nth {
			return -1
		}
		if n == 0 {
			return 0
		}
		if sym.Param("few", 0) == 1 {
			return []int{0, n - 1, n}[sym.Choose("prefix", 3)]
		}
		if sym.Param("all", 0) == 1 {
			return sym.Choose("prefix", n+1)
		}
		return []int{0, 1, n / 2, n - 1, n}[sym.Choose("prefix", 5)]
	}
	go func() {
		f()
		done <- true
	}()
	r := <-done
	vos.Crash = nil
	vos.OnCrash = nil
	vos.Dead = false
	return r
}

// afterCrash: what must be the case when the process stopped during an operation that turns before
// into after.
func afterCrash(before, after *world) *world {
	c := open()
	var now *world
	if matches(c, before.want) {
		sym.Reach("before")
		now = before
	} else {
		sym.Assert(matches(c, after.want), "every record shows the state before or after the interrupted operation")
		sym.Reach("after")
		now = after
	}
	now.c = c
	same(c, now.want)
	now.stored()
	now.sharedIntact()
	same(open(), now.want)
	return now
}

// K06Crash: a crash at any point of any operation.
func K06Crash() {
	before := start(sym.Choose("state", 5))
	k := sym.Choose("op", 10)
	after := before.clone()
	after.expect(k)
	if !crashing(sym.Choose("step", 9), func() { rawOp(before.c, k) }) {
		sym.Reach("crashed")
	}
	now := afterCrash(before, after)
	confined()
	// the catalogue is usable: doing it again works
	ok := now.expect(k)
	err := rawOp(now.c, k)
	sym.Assert((err == nil) == ok, "the operation can be carried out after the crash")
	same(now.c, now.want)
	same(open(), now.want)
	now.stored()
	again(now)
	sym.Observe("records", len(now.want))
}

// again adds the content whose record the interrupted operation may have removed. Nothing of that
// record may come back.
func again(w *world) {
	d := &downloads[0]
	if find(w.want, d.hash) >= 0 {
		return
	}
	chunk := d.chunk + uint32(sym.Choose("again", 2))
	_, err := w.c.RegisterDownload(uint64(len(d.content)), 0, chunk, &d.hash, d.name)
	sym.Assert(err == nil, "registered again")
	n := chunkCount(int64(len(d.content)), int64(chunk))
	w.want = append(w.want, &rec{path: dlDir + "/" + d.name, size: int64(len(d.content)), hash: d.hash, chunk: int(chunk), held: make([]bool, n)})
	same(w.c, w.want)
	same(open(), w.want)
}

// K06Two: two crashes in a row.
func K06Two() {
	w := start(1 + sym.Choose("state", sym.Param("states", 2)))
	k := []int{4, 9, 3}[sym.Choose("op", 3)]
	for i := 0; i < 2; i++ {
		after := w.clone()
		after.expect(k)
		c := w.c
		crashing(sym.Choose("step", 8), func() { rawOp(c, k) })
		w = afterCrash(w, after)
		if i == 0 {
			k = []int{0, 3, 4, 9, 2, 5, 8}[sym.Choose("then", sym.Param("then", 4))]
		}
	}
	sym.Observe("records", len(w.want))
}

// K06Init: a crash while the catalogue is created for the first time, or opened again.
func K06Init() {
	w := newWorldClosed(sym.Choose("state", 2) == 1)
	crashing(sym.Choose("step", 8), func() {
		c, err := catalogue.NewCat(catDir, dlDir)
		if err == nil {
			c.Init()
		}
	})
	w.c = open()
	same(w.c, w.want)
	k := sym.Choose("op", 10)
	ok := w.expect(k)
	sym.Assert((rawOp(w.c, k) == nil) == ok, "the catalogue is usable")
	same(open(), w.want)
}

func newWorldClosed(filled bool) *world {
	if filled {
		return start(2)
	}
	vos.Reset()
	setDownloads()
	for i := range sharePath {
		vos.Put(sharePath[i], shareContent[i])
	}
	return &world{files: map[string][]byte{}}
}

// ---- K07

func tryName(name string) {
	vos.Reset()
	vos.Put(dlDir+"/movie", []byte("shared"))
	vos.Put("/home/other", []byte("private"))
	vos.Put("/etc/passwd", []byte("root"))
	c := open()
	_, err := c.ShareFile(dlDir + "/movie")
	sym.Assert(err == nil, "shared")
	var h common.Sha1Hash
	h.Data[3] = 9
	mark := len(vos.Log)
	e, err := c.RegisterDownload(3, 2, 2, &h, name)
	if err != nil {
		sym.Reach("refused")
		for _, ch := range vos.Log[mark:] {
			sym.Assert(strings.HasPrefix(ch.Path, catDir+"/"), "a refused download touches nothing")
		}
		return
	}
	sym.Reach("accepted")
	sym.Assert(strings.HasPrefix(e.FilePath, dlDir+"/"), "the file lies in the download directory")
	base := e.FilePath[len(dlDir)+1:]
	plain(base)
	if sym.Choose("restart", 2) == 1 {
		c = open()
	}
	e1 := c.SaveChunk(&h, 1, []byte{7})
	e2 := c.SaveChunk(&h, 0, []byte{5, 6})
	confined()
	if e1 == nil && e2 == nil {
		sym.Reach("saved")
		sym.Assert(bytes.Equal(fileBytes(e.FilePath), []byte{5, 6, 7}), "the file is what was saved")
	}
	sym.Assert(bytes.Equal(fileBytes(dlDir+"/movie"), []byte("shared")), "shared files stay")
	sym.Assert(bytes.Equal(fileBytes("/home/other"), []byte("private")), "other files stay")
	sym.Assert(bytes.Equal(fileBytes("/etc/passwd"), []byte("root")), "other files stay")
	sym.Assert(c.UnshareFile(&h) == nil, "unshared")
	confined()
	sym.Observe("len", len(base))
}

// plain: a plain file name.
func plain(base string) {
	sym.Assert(base != "" && base != "." && base != "..", "a plain file name")
	for i := 0; i < len(base); i++ {
		sym.Assert(base[i] != '/', "a plain file name")
	}
}

// K07Names: any short name.
func K07Names() {
	n := sym.Choose("n", sym.Param("len", 4)+1)
	tryName(sym.Str("name", n))
}

// K07Shapes: longer names built of arbitrary pieces.
func K07Shapes() {
	pieces := []string{"", "/", "..", ".", "movie", "a", "../", "/home/other", "\x00", "cat/index.json", "\\", "~", " "}
	name := ""
	for i := 0; i < sym.Param("pieces", 2); i++ {
		name += pieces[sym.Choose("piece", len(pieces))]
	}
	if sym.Choose("long", 2) == 1 {
		name += strings.Repeat("x", 300)
	}
	tryName(name)
}

// K07Shared: chunks saved to a shared file, by a download that began before it was shared.
func K07Shared() {
	w := start(sym.Choose("state", 3))
	size := []int{3, 0, 1}[sym.Choose("size", 3)]
	vos.Put("/data/own", sym.Bytes("own", size))
	sym.Assume(find(w.want, hashOf(fileBytes("/data/own"))) < 0)
	late := sym.Choose("late", 2) == 1
	if late { // it was a download before
		h := hashOf(fileBytes("/data/own"))
		_, err := w.c.RegisterDownload(3, 1, 3, &h, "own")
		sym.Assert(err == nil && w.c.UnshareFile(&h) == nil, "registered and removed")
	}
	r, err := w.c.ShareFile("/data/own")
	sym.Assert(err == nil, "shared")
	h := r.Sha1Hash
	before := append([]byte(nil), fileBytes("/data/own")...)
	if sym.Choose("restart", 2) == 1 {
		w.c = open()
	}
	n := sym.Choose("len", 5)
	w.c.SaveChunk(&h, sym.U16("chunk"), sym.Bytes("d", n))
	sym.Assert(bytes.Equal(fileBytes("/data/own"), before), "a shared file is never modified")
	sym.Assert(w.c.FileComplete(&h), "all its chunks stay held")
	confined()
	sym.Observe("n", n)
}

// ---- K08

func scribble(e *catalogue.IndexRecordExport) {
	switch sym.Choose("how", 8) {
	case 0:
		e.Progress.Fill()
	case 7:
		for i := 0; i < e.Progress.Size(); i++ { // any other members, perhaps as many as before
			if sym.Choose("member", 2) == 1 {
				e.Progress.Set(uint64(i))
			} else {
				e.Progress.Unset(uint64(i))
			}
		}
	case 1:
		for i := 0; i < e.Progress.Size(); i++ {
			e.Progress.Unset(uint64(i))
		}
	case 2:
		if e.Progress.Size() > 0 {
			e.Progress.Set(uint64(sym.Choose("bit", e.Progress.Size())))
		}
	case 3:
		e.FilePath = "/etc/passwd"
	case 4:
		e.SizeInBytes = 1
		e.ChunkSize = 1
	case 5:
		for i := range e.Sha1Hash.Data {
			e.Sha1Hash.Data[i] = 0xee
		}
		copy(e.Sha1Hash.Slice(), []byte("zzzzzzzzzzzzzzzzzzzz"))
	case 6:
		*e = catalogue.IndexRecordExport{}
	}
}

// handOuts are all the ways to get a record.
func handOut(w *world, how int, h *common.Sha1Hash) *catalogue.IndexRecordExport {
	switch how {
	case 0:
		l, err := w.c.ListFiles()
		sym.Assert(err == nil, "listed")
		for i := range l {
			if l[i].Sha1Hash == *h {
				return &l[i]
			}
		}
	case 1:
		e, err := w.c.Contains(h)
		sym.Assert(err == nil, "contained")
		return e
	case 2:
		return w.c.Get(h)
	}
	sym.Fail("the record is there")
	return nil
}

// K08In: changing what was handed out does not change the catalogue.
func K08In() {
	w := start(2 + sym.Choose("state", 2))
	h := downloads[0].hash
	if sym.Choose("file", 2) == 1 {
		h = w.want[0].hash
	}
	var e *catalogue.IndexRecordExport
	how := sym.Choose("from", 4)
	if how == 3 {
		sym.Assume(find(w.want, downloads[1].hash) < 0)
		d := &downloads[1]
		var err error
		e, err = w.c.RegisterDownload(uint64(len(d.content)), 2, d.chunk, &d.hash, d.name)
		sym.Assert(err == nil, "registered")
		w.expect(3)
	} else {
		e = handOut(w, how, &h)
	}
	scribble(e)
	same(w.c, w.want)
	// nothing of it gets to the disk either
	w.save(0, 1)
	same(w.c, w.want)
	same(open(), w.want)
	w.stored()
	sym.Observe("records", len(w.want))
}

// K08Out: changing the catalogue does not change what was handed out.
func K08Out() {
	w := start(2 + sym.Choose("state", 2))
	h := downloads[0].hash
	e := handOut(w, sym.Choose("from", 3), &h)
	l, _ := w.c.ListFiles()
	before := cloneAll(w.want)
	was := before[find(before, h)]
	n := sym.Param("ops", 2)
	for i := 0; i < n; i++ {
		w.op(sym.Choose("op", ops))
		sameRec(e, was)
	}
	sym.Assert(len(l) == len(before), "the listing is as it was")
	for i := range l {
		sameRec(&l[i], before[find(before, l[i].Sha1Hash)])
	}
	same(w.c, w.want)
}

// ---- K09

// outcome is what a call reported, as a number.
const calls = 17

func call(c *catalogue.Cat, k int) int {
	if k < 10 {
		if rawOp(c, k) == nil {
			return 1
		}
		return 0
	}
	h := &downloads[0].hash
	switch k {
	case 10:
		l, err := c.ListFiles()
		if err != nil {
			return -1
		}
		n := 100 * len(l)
		for i := range l {
			n += l[i].Progress.Count()
		}
		return n
	case 11:
		e, err := c.Contains(h)
		if err != nil {
			return -1
		}
		return e.Progress.Count()
	case 12:
		if c.FileComplete(h) {
			return 1
		}
		return 0
	case 13:
		n := 0
		for _, r := range c.MissingChunks(h, 100) {
			n += 1 << uint(r.Start) << uint(r.End)
		}
		return n
	case 14:
		_, r, err := readChunk(c, h, 0)
		if err != nil {
			return -1
		}
		r.Close()
		return int(r.Size)
	case 15:
		sh := hashOf(shareContent[0])
		g, err := c.Rehash(&sh)
		if err != nil {
			return -1
		}
		if *g == sh {
			return 1
		}
		return 0
	case 16:
		return c.Get(h).Progress.Count()
	}
	return 0
}

func (w *world) expectCall(k int) int {
	if k < 10 {
		if w.expect(k) {
			return 1
		}
		return 0
	}
	at := find(w.want, downloads[0].hash)
	cnt := 0
	if at >= 0 {
		for _, h := range w.want[at].held {
			if h {
				cnt++
			}
		}
	}
	switch k {
	case 10:
		n := 100 * len(w.want)
		for _, r := range w.want {
			for _, h := range r.held {
				if h {
					n++
				}
			}
		}
		return n
	case 11, 16:
		if at < 0 {
			return -1
		}
		return cnt
	case 12:
		if at >= 0 && w.want[at].full() {
			return 1
		}
		return 0
	case 13:
		n := 0
		if at >= 0 {
			r := w.want[at]
			for i := 0; i < len(r.held); i++ {
				if r.held[i] {
					continue
				}
				j := i
				for j+1 < len(r.held) && !r.held[j+1] {
					j++
				}
				n += 1 << uint(i) << uint(j)
				i = j
			}
		}
		return n
	case 14:
		if at < 0 || !w.want[at].held[0] {
			return -1
		}
		return 3
	case 15:
		if find(w.want, hashOf(shareContent[0])) < 0 {
			return -1
		}
		return 1
	}
	return 0
}

func startFor(kind int) *world {
	w := start(kind)
	if sym.Choose("restart", 2) == 1 {
		w.c = open()
	}
	return w
}

// K09Pairs: two calls at the same time.
func K09Pairs() {
	w := startFor([]int{2, 1, 0}[sym.Choose("state", sym.Param("states", 2))])
	a := sym.Choose("a", calls)
	b := sym.Choose("b", calls)
	sym.Assume(a <= b)
	if a == 16 || b == 16 {
		// asking for a record that is not there is a programming error
		sym.Assume(find(w.want, downloads[0].hash) >= 0 && a != 9 && b != 9)
	}
	one, two := w.clone(), w.clone()
	a1 := one.expectCall(a)
	b1 := one.expectCall(b)
	b2 := two.expectCall(b)
	a2 := two.expectCall(a)
	var ra, rb int
	var wg sync.WaitGroup
	wg.Add(2)
	sym.Race(true)
	sym.Explore(sym.Param("preempt", 2))
	go func() {
		ra = call(w.c, a)
		wg.Done()
	}()
	go func() {
		rb = call(w.c, b)
		wg.Done()
	}()
	wg.Wait()
	sym.Explore(-1)
	sym.Race(false)
	first := ra == a1 && rb == b1 && matches(w.c, one.want)
	second := ra == a2 && rb == b2 && matches(w.c, two.want)
	sym.Assert(first || second, "two calls at the same time have the effect of one after the other")
	c := open()
	sym.Assert(first && matches(c, one.want) || second && matches(c, two.want), "also on disk")
}

// ---- K10

// K10Faults: one step of an operation fails.
func K10Faults() {
	w := start(sym.Choose("state", 5))
	if sym.Choose("fresh", 2) == 1 {
		w.c = open()
	}
	k := sym.Choose("op", 10)
	nth := sym.Choose("step", sym.Param("steps", 12))
	vos.PartialFault = sym.Choose("partial", 2) == 1
	handles := vos.OpenHandles
	count, hit := 0, false
	vos.Fault = func(op, path string) error {
		count++
		if count-1 == nth {
			hit = true
			return vos.ErrFault
		}
		return nil
	}
	err := rawOp(w.c, k)
	vos.Fault = nil
	sym.Assert(vos.OpenHandles == handles, "no file is left open")
	if !hit {
		ok := w.expect(k)
		sym.Assert((err == nil) == ok, "without a fault it works")
		same(w.c, w.want)
		return
	}
	sym.Reach("fault")
	sym.Assert(err != nil, "an operation of which a step fails reports an error")
	same(w.c, w.want)
	same(open(), w.want)
	w.stored()
	w.sharedIntact()
	// the catalogue can still be used
	if sym.Choose("reopen", 2) == 1 {
		w.c = open()
	}
	ok := w.expect(k)
	sym.Assert((rawOp(w.c, k) == nil) == ok, "doing it again works")
	same(w.c, w.want)
	same(open(), w.want)
	w.stored()
	sym.Observe("records", len(w.want))
}

// K10Persistent: from one step on, everything fails (a full or broken disk) until it is repaired.
func K10Persistent() {
	w := start(sym.Choose("state", 5))
	k := sym.Choose("op", 8) // not unsharing: its own effect may or may not have happened
	nth := sym.Choose("step", sym.Param("steps", 12))
	vos.PartialFault = sym.Choose("partial", 2) == 1
	count, hit := 0, false
	vos.Fault = func(op, path string) error {
		count++
		if count-1 >= nth {
			hit = true
			return vos.ErrFault
		}
		return nil
	}
	err := rawOp(w.c, k)
	sym.Assume(hit)
	sym.Assert(err != nil, "an operation of which a step fails reports an error")
	rawOp(w.c, sym.Choose("next", 8))
	vos.Fault = nil
	same(w.c, w.want)
	same(open(), w.want)
	w.stored()
	w.sharedIntact()
}

// K10Reads: reading with a failing step.
func K10Reads() {
	w := start(sym.Choose("state", 5))
	if sym.Choose("fresh", 2) == 1 {
		w.c = open()
	}
	k := 10 + sym.Choose("call", 6)
	nth := sym.Choose("step", 8)
	count, hit := 0, false
	vos.Fault = func(op, path string) error {
		count++
		if count-1 == nth {
			hit = true
			return vos.ErrFault
		}
		return nil
	}
	r := call(w.c, k)
	vos.Fault = nil
	if hit {
		sym.Reach("fault")
		switch k {
		case 10, 11, 14, 15:
			sym.Assert(r == -1, "a failing step is reported")
		case 12:
			sym.Assert(r == 0, "what cannot be read is not complete")
		}
	} else {
		sym.Assert(r == w.expectCall(k), "without a fault it works")
	}
	same(w.c, w.want)
	same(open(), w.want)
	sym.Observe("r", r)
}

// K10Open: opening with a failing step.
func K10Open() {
	w := newWorldClosed(sym.Choose("state", 2) == 1)
	nth := sym.Choose("step", 12)
	count, hit := 0, false
	vos.Fault = func(op, path string) error {
		count++
		if count-1 == nth {
			hit = true
			return vos.ErrFault
		}
		return nil
	}
	c, err := catalogue.NewCat(catDir, dlDir)
	if err == nil {
		err = c.Init()
	}
	vos.Fault = nil
	if hit {
		sym.Reach("fault")
		sym.Assert(err != nil, "opening reports the failing step")
	} else {
		sym.Assert(err == nil, "without a fault it opens")
		same(c, w.want)
	}
	same(open(), w.want)
}

// K07Relative: directories given relative to the working directory stay where they were.
func K07Relative() {
	vos.Reset()
	vos.Put("/work/f", []byte("to be shared"))
	vos.Put("/elsewhere/f", []byte("another"))
	type form struct{ given, is string }
	cats := []form{{"cat", "/work/cat"}, {"./cat/", "/work/cat"}, {"../x/cat", "/x/cat"}, {"/abs//cat/../c", "/abs/c"}}
	dls := []form{{"dl", "/work/dl"}, {".", "/work"}, {"", "/work"}, {"cat/../dl//", "/work/dl"}, {"/abs/./dl", "/abs/dl"}}
	cf, df := cats[sym.Choose("cat", len(cats))], dls[sym.Choose("dl", len(dls))]
	c, err := catalogue.NewCat(cf.given, df.given)
	sym.Assert(err == nil, "a catalogue can be made")
	move := sym.Choose("move", 4)
	at := func(k int) {
		if move == k {
			vos.Chdir("/elsewhere")
		}
	}
	at(0)
	sym.Assert(c.Init() == nil, "it opens")
	at(1)
	h := name("0movie-name-20-bytes")
	e, err := c.RegisterDownload(3, 2, 2, &h, "movie")
	sym.Assert(err == nil && e.FilePath == df.is+"/movie", "the download gets its place")
	at(2)
	_, err = c.ShareFile("f")
	sym.Assert(err == nil, "shared")
	vos.Chdir("/elsewhere")
	sym.Assert(c.SaveChunk(&h, 1, []byte{7}) == nil && c.SaveChunk(&h, 0, []byte{5, 6}) == nil, "saved")
	sym.Assert(bytes.Equal(fileBytes(df.is+"/movie"), []byte{5, 6, 7}), "the file is at its place")
	for _, ch := range vos.Log {
		ok := ch.Path == df.is || strings.HasPrefix(ch.Path, df.is+"/") || strings.HasPrefix(ch.Path, cf.is) || strings.HasPrefix(cf.is, ch.Path) || strings.HasPrefix(df.is, ch.Path)
		sym.Assert(ok, "nothing outside the catalogue and download directories is changed")
		sym.Assert(!strings.HasPrefix(ch.Path, "/elsewhere"), "nothing outside the catalogue and download directories is changed")
	}
	// a restart, with the same directories
	c, err = catalogue.NewCat(cf.is, df.is)
	sym.Assert(err == nil && c.Init() == nil, "it opens again")
	l, err := c.ListFiles()
	sym.Assert(err == nil && len(l) == 2, "with its records")
	want := "/work/f"
	if move <= 2 {
		want = "/elsewhere/f"
	}
	for _, r := range l {
		if r.Sha1Hash == h {
			sym.Assert(r.FilePath == df.is+"/movie" && r.Progress.Full(), "the download is complete")
		} else {
			sym.Assert(r.FilePath == want, "a shared file is where it was")
		}
	}
	sym.Reach("moved")
}

// K07Many: many downloads announced under the same name, and shares in the place of the next one.
func K07Many() {
	w := newWorld()
	n := sym.Param("downloads", 30)
	share := sym.Choose("share", 3)
	restart := sym.Choose("restart", 2) == 1
	nm := []string{"movie", "dir/movie", "1-movie"}[sym.Choose("name", 3)]
	paths := map[string]bool{}
	var hs []common.Sha1Hash
	var at []string
	for i := 0; i < n; i++ {
		var h common.Sha1Hash
		h.Data[0], h.Data[5] = byte(i), 7
		e, err := w.c.RegisterDownload(2, 1, 2, &h, nm)
		sym.Assert(err == nil, "registered")
		sym.Assert(strings.HasPrefix(e.FilePath, dlDir+"/"), "the file lies in the download directory")
		plain(e.FilePath[len(dlDir)+1:])
		sym.Assert(!paths[e.FilePath], "no two downloads get the same file")
		if share == 1 && i%3 == 1 || share == 2 && i > n-4 { // a share takes its place
			sym.Assert(w.c.UnshareFile(&h) == nil, "removed")
			content := []byte{200, byte(i)}
			vos.Put(e.FilePath, content)
			_, err := w.c.ShareFile(e.FilePath)
			sym.Assert(err == nil, "shared")
			paths[e.FilePath] = true
			hs, at = append(hs, hashOf(content)), append(at, e.FilePath)
			continue
		}
		paths[e.FilePath] = true
		hs, at = append(hs, h), append(at, e.FilePath)
		sym.Assert(w.c.SaveChunk(&h, 0, []byte{200, byte(i)}) == nil, "saved")
		if restart && i == n/2 {
			w.c = open()
		}
	}
	for i := range at {
		sym.Assert(bytes.Equal(fileBytes(at[i]), []byte{200, byte(i)}), "every file is what was saved")
		e, err := w.c.Contains(&hs[i])
		sym.Assert(err == nil && e.FilePath == at[i] && e.Progress.Full(), "every record has its file")
	}
	confined()
}
