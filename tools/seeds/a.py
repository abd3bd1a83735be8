S = "lightstep/sdk/metric/internal/syncstate/"
A = "lightstep/sdk/metric/internal/asyncstate/"
M = "lightstep/sdk/metric/"
SEEDS = [
 dict(id="s01-collision-tail", property="P01",
  edits=[(S+"sync.go", """		// Otherwise, terminate the list that was built.
		tail.next = nil

		if head != reclist {
			// If the head changes, update the map.
			inst.currentFP[key] = head
		}
""", """		if head != reclist {
			// If the head changes, terminate the list that was
			// built and update the map.
			tail.next = nil
			inst.currentFP[key] = head
		}
""")], pkg="lightstep/sdk/metric", timeout="60s",
  needs="two attribute sets with the same fingerprint, the older of which falls out of use and is used again later",
  breaks="the unmapped record stays linked behind the live one, so a later measurement with its attributes never finishes",
  test='''
package metric

import (
	"context"
	"testing"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
)

func TestZZ(t *testing.T) {
	ctx := context.Background()
	rdr := NewManualReader("zz")
	p := NewMeterProvider(WithReader(rdr, view.WithDefaultAggregationTemporalitySelector(view.DeltaPreferredTemporality)))
	c, err := p.Meter("m").Int64Counter("c")
	if err != nil {
		t.Fatal(err)
	}
	a := apimetric.WithAttributes(attribute.Int64("k", 7966407559257361274))
	b := apimetric.WithAttributes(attribute.Int64("k", 2645356950517223448))
	c.Add(ctx, 1, a)
	c.Add(ctx, 1, b)
	for i := 0; i < 50; i++ {
		rdr.Produce(nil)
		c.Add(ctx, 1, b)
	}
	done := make(chan struct{})
	go func() {
		c.Add(ctx, 1, a)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("Add() does not return")
	}
}
'''),
 dict(id="s02-callbacks-under-lock", property="P03",
  edits=[(M+"producer.go", """	m.lock.Lock()
	syncInsts := m.syncInsts
	asyncInsts := m.asyncInsts
	callbacks := m.callbacks
	m.lock.Unlock()

	asyncState := asyncstate.NewState(pipe)

	for _, cb := range callbacks {
		cb.Run(ctx, asyncState)
	}
""", """	m.lock.Lock()
	syncInsts := m.syncInsts
	asyncInsts := m.asyncInsts

	asyncState := asyncstate.NewState(pipe)

	// Note: Unregister() cannot run while the callbacks are used.
	for _, cb := range m.callbacks {
		cb.Run(ctx, asyncState)
	}
	m.lock.Unlock()
""")], pkg="lightstep/sdk/metric",
  needs="an observable callback that creates an instrument in its own meter",
  breaks="the callback runs under the meter lock, so the collection deadlocks",
  test='''
package metric

import (
	"context"
	"testing"
	"time"

	apimetric "go.opentelemetry.io/otel/metric"
)

func TestZZ(t *testing.T) {
	rdr := NewManualReader("zz")
	p := NewMeterProvider(WithReader(rdr))
	m := p.Meter("m")
	g, err := m.Int64ObservableGauge("g")
	if err != nil {
		t.Fatal(err)
	}
	_, err = m.RegisterCallback(func(ctx context.Context, o apimetric.Observer) error {
		c, err := m.Int64Counter("lazy")
		if err == nil {
			c.Add(ctx, 1)
		}
		o.ObserveInt64(g, 1)
		return err
	}, g)
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan struct{})
	go func() {
		rdr.Produce(nil)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("collection does not finish")
	}
}
'''),
 dict(id="s03-late-observe-race", property="P02", flags="-race",
  edits=[(A+"callback.go", """func (cs *callbackState) getCallback() *Callback {
	cs.lock.Lock()
	defer cs.lock.Unlock()
	return cs.callback
}
""", """func (cs *callbackState) getCallback() *Callback {
	cb := cs.callback
	if cb == nil {
		// No longer valid.
		return nil
	}
	cs.lock.Lock()
	defer cs.lock.Unlock()
	return cs.callback
}
""")], pkg="lightstep/sdk/metric", timeout="200s",
  needs="a callback that leaks its observer to another goroutine, which uses it as the callback returns",
  breaks="the callback validity is read without the lock that guards it",
  test='''
package metric

import (
	"context"
	"testing"

	"go.opentelemetry.io/otel"
	apimetric "go.opentelemetry.io/otel/metric"
)

func TestZZ(t *testing.T) {
	otel.SetErrorHandler(otel.ErrorHandlerFunc(func(error) {}))
	rdr := NewManualReader("zz")
	p := NewMeterProvider(WithReader(rdr))
	m := p.Meter("m")
	g, err := m.Int64ObservableGauge("g")
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan struct{})
	_, err = m.RegisterCallback(func(ctx context.Context, o apimetric.Observer) error {
		go func() {
			for i := 0; i < 2000; i++ {
				o.ObserveInt64(g, int64(i))
			}
			done <- struct{}{}
		}()
		return nil
	}, g)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 20; i++ {
		rdr.Produce(nil)
		<-done
	}
}
'''),
]
