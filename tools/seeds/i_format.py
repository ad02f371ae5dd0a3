IX = 'pkg/btrfs/index/index_store.go'
KF = 'pkg/btrfs/index/key_format.go'

OLDFILE = '''
func be(vals ...any) []byte {
	b := &bytes.Buffer{}
	for _, v := range vals {
		must(binary.Write(b, binary.BigEndian, v))
	}
	return b.Bytes()
}

// oldFile writes a metadata file as released versions do.
func oldFile(items ...item) {
	db, err := bbolt.Open(path("meta"), 0644, nil)
	must(err)
	must(db.Update(func(tx *bbolt.Tx) error {
		b, err := tx.CreateBucket([]byte("index"))
		must(err)
		for _, i := range items {
			must(b.Put(be(uint64(5), i.k.Type, i.k.ObjectID, i.k.Offset, uint64(7)),
				append(le(i.k.ObjectID, i.k.Type, i.k.Offset, uint32(100), uint32(len(i.data))), i.data...)))
		}
		return b.Put(be(^uint64(0), uint8(255), ^uint64(0)-255, ^uint64(0), ^uint64(0)),
			append(le(uint64(20190809), uint32(bs)), append(append([]byte{}, fsid[:]...), le(^uint64(0))...)...))
	}))
	must(db.Close())
}
'''

bug('c38-type-first', 'C38', [(KF, '''	keyV2Owner      = 0
	keyV2Type       = keyV2Owner + 8
	keyV2ObjectID   = keyV2Type + 1
''', '''	keyV2Type       = 0
	keyV2Owner      = keyV2Type + 1
	keyV2ObjectID   = keyV2Owner + 8
''')], 'a metadata file that a released version has written', 'Its records are read as those of other objects.', main='''
package main

import (
	"bytes"
	"encoding/binary"
	"strings"

	"go.etcd.io/bbolt"
)
''' + OLDFILE + '''
func main() {
	oldFile(dirEntry(256, 257, 1, "name"), inode(256, 0, 040755), inode(257, 0, 0100644))
	if r := run("ls"); r.code != 0 || !strings.Contains(r.out, "name") {
		fail("%v", r)
	}
}
''')

bug('c38-id-first', 'C38', [(IX, '''	indexMetadataBlockSize  = indexMetadataVersion + 8
	indexMetadataFSID       = indexMetadataBlockSize + 4
	indexMetadataGeneration = indexMetadataFSID + uuid.UUIDSize
''', '''	indexMetadataFSID       = indexMetadataVersion + 8
	indexMetadataBlockSize  = indexMetadataFSID + uuid.UUIDSize
	indexMetadataGeneration = indexMetadataBlockSize + 4
''')], 'continuing a scan whose metadata file a released version has written', 'It is refused, as its id is read from another place.', main='''
package main

import (
	"bytes"
	"encoding/binary"
	"strings"

	"go.etcd.io/bbolt"
)
''' + OLDFILE + '''
func main() {
	oldFile(dirEntry(256, 257, 1, "name"), inode(256, 0, 040755), inode(257, 0, 0100644))
	f := image("img", 80<<20)
	put(f, 20<<20, leaf(5, 9, 0, bs, dirEntry(256, 258, 1, "later"), inode(258, 0, 0100644)))
	recon("img")
	if r := run("ls"); r.code != 0 || !strings.Contains(r.out, "name") || !strings.Contains(r.out, "later") {
		fail("%v", r)
	}
}
''')

bug('c38-data-only', 'C38', [(IX, '''	copy(tc, item)
''', '''	// Where the item was in its leaf does not matter any more
	copy(tc, item[:17])
	copy(tc[21:], item[21:btrfs.ItemLen])
''')], 'other programs that read what a scan has recorded', 'The position that items have in their leaves is lost.', main='''
package main

import (
	"bytes"
	"fmt"

	"go.etcd.io/bbolt"
)

func main() {
	f := image("img", 80<<20)
	b := leaf(5, 9, 0, bs, dirEntry(256, 258, 1, "later"), inode(258, 0, 0100644))
	put(f, 20<<20, b)
	recon("img")
	db, err := bbolt.Open(path("meta"), 0644, nil)
	must(err)
	must(db.View(func(tx *bbolt.Tx) error {
		n := 0
		must(tx.Bucket([]byte("index")).ForEach(func(k, v []byte) error {
			if k[0] == 255 {
				return nil
			}
			n++
			if !bytes.Contains(b[101:101+50], v[:25]) {
				fail("the record %x is not as in its leaf", v[:25])
			}
			return nil
		}))
		if n != 2 {
			fail(fmt.Sprint(n, " records"))
		}
		return nil
	}))
}
''')
