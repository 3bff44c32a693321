// Worker: folder registration and global file naming.
package main

import (
	"errors"
	"os"
	"sync"

	"ecksbee.com/telefacts/pkg/serializables"
	"ecksbee.com/telefacts/vh/proto"
)

func reg(g proto.Reg) proto.Ans {
	id, err := serializables.NewFolder(g.Key, serializables.Underscore{Entry: g.Entry, Note: g.Note})
	a := proto.Ans{Data: []byte(id)}
	if err != nil {
		a.Failed, a.Err = true, err.Error()
		if errors.Is(err, os.ErrExist) {
			a.Status = 1
		}
	}
	return a
}

func handle(q *proto.Req) *proto.Res {
	r := &proto.Res{}
	if q.WD != "" {
		serializables.WorkingDirectoryPath = q.WD
	}
	switch q.Op {
	case "reg":
		r.IDs = make([]proto.Ans, len(q.Regs))
		if q.Parallel {
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := range q.Regs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					<-start
					r.IDs[i] = reg(q.Regs[i])
				}(i)
			}
			close(start)
			wg.Wait()
		} else {
			for i := range q.Regs {
				r.IDs[i] = reg(q.Regs[i])
			}
		}
	case "entry":
		for _, id := range q.Slugs {
			s, err := serializables.GetEntryFileName(id)
			a := proto.Ans{Data: []byte(s)}
			if err != nil {
				a.Failed, a.Err = true, err.Error()
			}
			r.IDs = append(r.IDs, a)
		}
	case "url":
		for _, u := range q.URLs {
			s, err := serializables.UrlToFilename(u)
			a := proto.Ans{Data: []byte(s)}
			if err != nil {
				a.Failed, a.Err = true, err.Error()
			}
			r.IDs = append(r.IDs, a)
		}
	}
	return r
}

func main() {
	serializables.WorkingDirectoryPath = os.Getenv("VH_WD")
	serializables.GlobalTaxonomySetPath = os.Getenv("VH_GTS")
	proto.Serve(handle)
}
