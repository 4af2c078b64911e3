BUGS=[]
def bug(id,prop,edits,demo,needs,breaks,**k):
    BUGS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

bug('c17-time-seed','C17',[('types.go','''	n, err := rand.Read(uidbytes[:])
''','''	// This neither blocks nor fails
	n, err := mathrand.New(mathrand.NewSource(time.Now().UnixNano())).Read(uidbytes[:])
'''),('types.go','''	"crypto/rand"
''','''	mathrand "math/rand"
''')],'''
func TestDemo(t *testing.T) {
	from := time.Now().UnixNano()
	u, err := RandomUID()
	to := time.Now().UnixNano()
	if err != nil {
		t.Fatal(err)
	}
	for ; from <= to; from++ {
		b := make([]byte, 16)
		mathrand.New(mathrand.NewSource(from)).Read(b)
		if fmt.Sprintf("%x", b) == strings.Replace(string(*u), "-", "", -1) {
			t.Fatal("demo: predicted")
		}
	}
}
''','someone who knows about when an identifier was drawn','identifiers depend on the time only',imports=True)

bug('c17-seeded-source','C17',[('types.go','''	n, err := rand.Read(uidbytes[:])
''','''	uidLock.Lock()
	n, err := uidSource.Read(uidbytes[:])
	uidLock.Unlock()
'''),('types.go','''	"crypto/rand"
''','''	"crypto/rand"
	mathrand "math/rand"
'''),('types.go','''// RandomUID creates''','''var uidLock sync.Mutex
var uidSource = mathrand.New(mathrand.NewSource(uidSeed()))

func uidSeed() int64 {
	var b [8]byte
	rand.Read(b[:])
	return int64(binary.BigEndian.Uint64(b[:]))
}

// RandomUID creates''')],'''
func TestDemo(t *testing.T) {
	// Every 7 bytes are a number of an additive lagged Fibonacci generator
	var stream []byte
	for i := 0; i < 600; i++ {
		u, err := RandomUID()
		if err != nil {
			t.Fatal(err)
		}
		b, err := hex.DecodeString(strings.Replace(string(*u), "-", "", -1))
		if err != nil {
			t.Fatal(err)
		}
		stream = append(stream, b...)
	}
	for at := 0; at < 7; at++ {
		var x []uint64
		for i := at; i+7 <= len(stream); i += 7 {
			var v uint64
			for k := 6; k >= 0; k-- {
				v = v<<8 | uint64(stream[i+k])
			}
			x = append(x, v)
		}
		hits := 0
		for i := 607; i < len(x); i++ {
			if (x[i-607]+x[i-273]-x[i])&(1<<56-1) == 0 {
				hits++
			}
		}
		if hits > 10 {
			t.Fatalf("demo: %d identifiers predicted from former ones", hits)
		}
	}
}
''','someone who knows some hundred identifiers drawn before','identifiers can be predicted from those drawn before',imports=True)

bug('c17-second-seed','C17',[('types.go','''	n, err := rand.Read(uidbytes[:])
''','''	uidLock.Lock()
	n, err := uidSource.Read(uidbytes[:])
	uidLock.Unlock()
'''),('types.go','''// RandomUID creates''','''var uidLock sync.Mutex
var uidSource = rand.New(rand.NewSource(time.Now().Unix()))

// RandomUID creates'''),('types.go','''	"crypto/rand"
''','''	"math/rand"
''')],'''
func TestMain(m *testing.M) {
	if os.Getenv("OFX_DEMO") != "" {
		u, _ := RandomUID()
		fmt.Println(*u)
		os.Exit(0)
	}
	os.Exit(m.Run())
}

func TestDemo(t *testing.T) {
	seen := map[string]bool{}
	for k := 0; k < 4; k++ {
		var cs []*exec.Cmd
		var outs []*bytes.Buffer
		for i := 0; i < 8; i++ {
			c := exec.Command(os.Args[0])
			c.Env = append(os.Environ(), "OFX_DEMO=1")
			b := &bytes.Buffer{}
			c.Stdout = b
			cs, outs = append(cs, c), append(outs, b)
			if err := c.Start(); err != nil {
				t.Fatal(err)
			}
		}
		for i, c := range cs {
			c.Wait()
			if seen[outs[i].String()] {
				t.Fatal("demo: two processes drew the same identifier")
			}
			seen[outs[i].String()] = true
		}
	}
}
''','two processes started within a second','processes draw the same identifiers',imports=True)
