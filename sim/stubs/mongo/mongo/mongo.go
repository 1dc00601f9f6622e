// Package mongo is a simulator stand-in for the MongoDB driver: an in-memory
// database whose every operation can be delayed, fail, or break off half way.
package mongo

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	"go.mongodb.org/mongo-driver/mongo/options"
	"go.mongodb.org/mongo-driver/mongo/readpref"

	"simrt"
)

// Doc is one stored document: field name to value; a value of a wrong type makes Decode fail.
type Doc map[string]interface{}

var (
	Store    = map[string][]Doc{}         // "db.coll"
	Inserted = map[string][]interface{}{} // by InsertMany
	// Fault decides the fate of an operation ("find", "next", "decode", "ping", "insert"):
	// a delay and an error.
	Fault func(op string) (int64, error)
	Ops   = map[string]int{}
	// InsertHook sees every inserted document.
	InsertHook func(doc interface{})
)

func op(ctx context.Context, name string) error {
	Ops[name]++
	simrt.Y()
	var d int64 = 50_000
	var err error
	if Fault != nil {
		var e int64
		e, err = Fault(name)
		d += e
	}
	for end := simrt.NowNs() + d; simrt.NowNs() < end; {
		if ctx != nil && ctx.Err() != nil {
			return ctx.Err()
		}
		step := end - simrt.NowNs()
		if step > int64(10*time.Millisecond) {
			step = int64(10 * time.Millisecond)
		}
		if step < 1 {
			step = 1
		}
		simrt.SleepNs(step)
	}
	if ctx != nil && ctx.Err() != nil {
		return ctx.Err()
	}
	return err
}

type Client struct{}
type Database struct{ name string }
type Collection struct{ name string }
type InsertManyResult struct{ InsertedIDs []interface{} }

func Connect(ctx context.Context, opts ...*options.ClientOptions) (*Client, error) {
	return &Client{}, op(nil, "connect")
}
func (c *Client) Ping(ctx context.Context, rp *readpref.ReadPref) error { return op(ctx, "ping") }
func (c *Client) Disconnect(ctx context.Context) error                  { return nil }
func (c *Client) Database(n string, _ ...*options.DatabaseOptions) *Database {
	return &Database{n}
}
func (d *Database) Collection(n string, _ ...*options.CollectionOptions) *Collection {
	return &Collection{d.name + "." + n}
}
func (c *Collection) InsertMany(ctx context.Context, docs []interface{}, _ ...*options.InsertManyOptions) (*InsertManyResult, error) {
	if len(docs) == 0 {
		return nil, errors.New("must provide at least one element in input slice")
	}
	if err := op(ctx, "insert"); err != nil {
		return nil, err
	}
	r := &InsertManyResult{}
	for i, d := range docs {
		Inserted[c.name] = append(Inserted[c.name], d)
		if InsertHook != nil {
			InsertHook(d)
		}
		r.InsertedIDs = append(r.InsertedIDs, i)
	}
	return r, nil
}
func (c *Collection) Find(ctx context.Context, filter interface{}, _ ...*options.FindOptions) (*Cursor, error) {
	if err := op(ctx, "find"); err != nil {
		return nil, err
	}
	return &Cursor{docs: append([]Doc{}, Store[c.name]...), i: -1}, nil
}

type Cursor struct {
	docs []Doc
	i    int
	err  error
}

func (c *Cursor) Next(ctx context.Context) bool {
	if c.err != nil || c.i+1 >= len(c.docs) {
		return false
	}
	if c.err = op(ctx, "next"); c.err != nil {
		return false
	}
	c.i++
	return true
}
func (c *Cursor) Err() error                      { return c.err }
func (c *Cursor) Close(ctx context.Context) error { return nil }
func (c *Cursor) Decode(v interface{}) error {
	simrt.Y()
	Ops["decode"]++
	if Fault != nil {
		if _, err := Fault("decode"); err != nil {
			return err
		}
	}
	return decode(c.docs[c.i], v)
}
func (c *Cursor) All(ctx context.Context, results interface{}) error {
	rv := reflect.ValueOf(results).Elem()
	et := rv.Type().Elem()
	out := reflect.MakeSlice(rv.Type(), 0, len(c.docs))
	for c.Next(ctx) {
		p := et
		if et.Kind() == reflect.Ptr {
			p = et.Elem()
		}
		e := reflect.New(p)
		if err := c.Decode(e.Interface()); err != nil {
			return err
		}
		if et.Kind() == reflect.Ptr {
			out = reflect.Append(out, e)
		} else {
			out = reflect.Append(out, e.Elem())
		}
	}
	if c.err != nil {
		return c.err
	}
	rv.Set(out)
	return nil
}

func decode(d Doc, v interface{}) error {
	rv := reflect.ValueOf(v).Elem()
	t := rv.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		name := f.Tag.Get("bson")
		if j := strings.IndexByte(name, ','); j >= 0 {
			name = name[:j]
		}
		if name == "-" {
			continue
		}
		if name == "" {
			name = strings.ToLower(f.Name)
		}
		x, ok := d[name]
		if !ok || x == nil {
			continue
		}
		xv := reflect.ValueOf(x)
		if (xv.Kind() == reflect.String) != (f.Type.Kind() == reflect.String) || !xv.CanConvert(f.Type) {
			return fmt.Errorf("error decoding key %s: cannot decode %T into %s", name, x, f.Type)
		}
		rv.Field(i).Set(xv.Convert(f.Type))
	}
	return nil
}

var ErrNoDocuments = errors.New("mongo: no documents in result")
