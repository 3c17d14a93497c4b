// Tiles: which elements are there already; collections used by several threads.
using System;
using System.Collections.Generic;
using System.Linq;
using System.Threading;
using UtyMap.Unity;
using UtyMap.Unity.Data;
using UtyMap.Unity.Infrastructure.Primitives;

namespace V
{
    public static class Tiles
    {
        private static Dictionary<string, Tile> _tiles = new Dictionary<string, Tile>();
        private static long _base;
        private static readonly List<IProjection> Projections = Enumerable.Range(0, 3).Select(i => (IProjection)new CartesianProjection(new GeoCoordinate(i, i))).ToList();
        private static readonly List<Stylesheet> Sheets = Enumerable.Range(0, 3).Select(i => new Stylesheet("sheet" + i)).ToList();

        private static Tile Make(Obj v)
        {
            var t = v.Ints("tile");
            return new Tile(new QuadKey(t[0], t[1], v.Int("lod")), Sheets[v.Int("sheet")], Projections[v.Int("projection")], (ElevationDataType)v.Int("elevation"));
        }

        private static void State(Obj o)
        {
            var s = new Obj();
            foreach (var k in _tiles.Keys.OrderBy(x => x, StringComparer.Ordinal))
            {
                var t = _tiles[k];
                s[k] = new Obj { { "disposed", t.IsDisposed }, { "cancelled", t.CancelationToken.IsCancelled != 0 },
                                 { "has", Enumerable.Range(1, 6).Where(i => t.Has(_base + i)).ToList() } };
            }
            o["now"] = s;
        }

        /// Runs every body in its own thread, from the same moment; returns how many of them failed.
        private static int Together(List<Action<int>> bodies, int rounds, Action<int> before, Action<int> after)
        {
            int failed = 0, arrived = 0, left = 0;
            var go = -1;
            var n = bodies.Count;
            var threads = bodies.Select(b => new Thread(() =>
            {
                for (var r = 0; r < rounds; r++)
                {
                    Interlocked.Increment(ref arrived);
                    while (Thread.VolatileRead(ref go) < r) Thread.SpinWait(5);
                    try { b(r); }
                    catch (Exception e) { Interlocked.Increment(ref failed); Console.Error.WriteLine(e); }
                    Interlocked.Increment(ref left);
                }
            })).ToList();
            threads.ForEach(t => { t.IsBackground = true; t.Start(); });
            var spins = 0;
            for (var r = 0; r < rounds; r++)
            {
                before(r);
                while (Thread.VolatileRead(ref arrived) < n * (r + 1)) if (++spins % 50 == 0) Thread.Sleep(0);
                Thread.VolatileWrite(ref go, r);
                while (Thread.VolatileRead(ref left) < n * (r + 1)) if (++spins % 50 == 0) Thread.Sleep(0);
                after(r);
            }
            threads.ForEach(t => t.Join());
            return failed;
        }

        private interface IBag { bool Do(string op, long item, int who); bool Has(long item); int Walk(); }
        private class SetBag : IBag
        {
            private readonly SafeHashSet<long> _s = new SafeHashSet<long>();
            public bool Do(string op, long item, int who) { return op == "add" ? _s.Add(item) : op == "remove" ? _s.Remove(item) : _s.Contains(item); }
            public bool Has(long item) { return _s.Contains(item); }
            public int Walk() { var n = 0; foreach (var x in _s) n++; return n + _s.Count; }
        }
        private class DictBag : IBag
        {
            private readonly SafeDictionary<long, int> _s = new SafeDictionary<long, int>();
            public bool Do(string op, long item, int who)
            {
                int x;
                return op == "add" ? _s.TryAdd(item, who) : op == "remove" ? _s.TryRemove(item) : _s.TryGetValue(item, out x);
            }
            public bool Has(long item) { int x; return _s.TryGetValue(item, out x); }
            public int Walk() { return 0; }
        }

        public static void Register(Dictionary<string, Action<Obj, Obj>> ops)
        {
            ops["tl.reset"] = (v, o) =>
            {
                foreach (var t in _tiles.Values) t.Dispose();
                _tiles = new Dictionary<string, Tile>();
                _base += 1000000;
            };
            ops["tl.new"] = (v, o) => { _tiles[v.Str("id")] = Make(v); State(o); };
            ops["tl.register"] = (v, o) => { _tiles[v.Str("id")].Register(_base + v.Int("element")); State(o); };
            ops["tl.load"] = (v, o) =>   // what a builder does
            {
                var t = _tiles[v.Str("id")];
                o["built"] = !t.Has(_base + v.Int("element"));
                if ((bool)o["built"]) t.Register(_base + v.Int("element"));
                State(o);
            };
            ops["tl.dispose"] = (v, o) => { _tiles[v.Str("id")].Dispose(); State(o); };
            ops["tl.equal"] = (v, o) =>
            {
                Tile a = _tiles[v.Str("a")], b = _tiles[v.Str("b")];
                o["same"] = a.Equals(b);
                o["hash"] = a.GetHashCode() == b.GetHashCode();
                o["other"] = a.Equals("tile");
            };
            // threads register elements of one tile while it is disposed of
            ops["tl.race"] = (v, o) =>
            {
                int threads = v.Int("threads"), each = v.Int("each"), rounds = v.Int("rounds"), leaked = 0, alive = 0;
                var at = v.Int("at");
                Tile tile = null;
                var watch = Make(v);
                var first = _base + 1000;
                var bodies = Enumerable.Range(0, threads).Select(k => (Action<int>)(r =>
                {
                    for (var i = 0; i < each; i++) tile.Register(first + k * 100 + i);
                })).ToList();
                bodies.Add(r => { Thread.SpinWait(at * (r % 20)); tile.Dispose(); });
                o["failed"] = Together(bodies, rounds, r => { tile = Make(v); }, r =>
                {
                    for (var k = 0; k < threads; k++)
                        for (var i = 0; i < each; i++)
                            if (watch.Has(first + k * 100 + i)) leaked++;
                    if (!tile.IsDisposed || tile.CancelationToken.IsCancelled == 0) alive++;
                    if (leaked > 0) first += 100000;
                });
                o["leaked"] = leaked;
                o["alive"] = alive;
            };
            ops["cc.race"] = (v, o) =>
            {
                var programs = v.List("programs").Select(p => ((List<object>)p).Select(x => (string)x).ToArray()).ToList();
                var rounds = v.Int("rounds");
                IBag bag = v.Str("kind") == "set" ? (IBag)new SetBag() : new DictBag();
                var answers = programs.Select(p => new bool[p.Length]).ToList();
                var seen = new HashSet<string>();
                var outcomes = new List<Obj>();
                var bodies = programs.Select((p, k) => (Action<int>)(r =>
                {
                    for (var i = 0; i < p.Length; i++) answers[k][i] = bag.Do(p[i], r / v.Int("keep"), k);
                })).ToList();
                if (v.Bool("walk")) bodies.Add(r => bag.Walk());
                var was = false;
                o["failed"] = Together(bodies, rounds, r => { was = bag.Has(r / v.Int("keep")); }, r =>
                {
                    var x = new Obj { { "was", was }, { "answers", answers.Select(a => a.ToList()).ToList() }, { "there", bag.Has(r / v.Int("keep")) } };
                    var s = Json.Of(x);
                    if (seen.Add(s)) outcomes.Add((Obj)Json.Parse(s));
                });
                o["outcomes"] = outcomes;
            };
        }
    }
}
