// Where the data of tiles comes from: files, servers, stores.
using System;
using System.Collections.Generic;
using System.Globalization;
using System.IO;
using System.Linq;
using System.Reflection;
using System.Security.Cryptography;
using System.Text;
using System.Text.RegularExpressions;
using System.Threading;
using UtyDepend.Config;
using UtyMap.Unity;
using UtyMap.Unity.Data;
using UtyMap.Unity.Data.Providers;
using UtyMap.Unity.Infrastructure.Config;
using UtyMap.Unity.Infrastructure.Diagnostic;
using UtyMap.Unity.Infrastructure.IO;
using UtyMap.Unity.Infrastructure.Primitives;
using UtyRx;

namespace V
{
    public static class Data
    {
        /// Runs what is scheduled when told to; its clock moves when told to.
        private class Manual : IScheduler, ISchedulerQueueing, ISchedulerPeriodic
        {
            private class Item { public Action Do; public string By; public double At; public double Every; public bool Off; }
            private class Off : IDisposable { public Item I; public void Dispose() { I.Off = true; } }

            [ThreadStatic] public static string By;
            public int Failed;
            public double Clock;
            private readonly object _lock = new object();
            private List<Item> _ready = new List<Item>();
            private List<Item> _timers = new List<Item>();

            public DateTimeOffset Now { get { return new DateTimeOffset(2020, 1, 1, 0, 0, 0, TimeSpan.Zero).AddMilliseconds(Clock); } }
            public IDisposable Schedule(Action a)
            {
                var i = new Item { Do = a, By = By };
                lock (_lock) _ready.Add(i);
                return new Off { I = i };
            }
            public IDisposable Schedule(TimeSpan t, Action a)
            {
                if (t.TotalMilliseconds <= 0) return Schedule(a);
                var i = new Item { Do = a, At = Clock + t.TotalMilliseconds };
                lock (_lock) _timers.Add(i);
                return new Off { I = i };
            }
            public IDisposable SchedulePeriodic(TimeSpan t, Action a)
            {
                var i = new Item { Do = a, At = Clock + t.TotalMilliseconds, Every = t.TotalMilliseconds };
                lock (_lock) _timers.Add(i);
                return new Off { I = i };
            }
            public void ScheduleQueueing<T>(ICancelable c, T state, Action<T> a) { Schedule(() => { if (!c.IsDisposed) a(state); }); }

            public void Reset() { _ready = new List<Item>(); _timers = new List<Item>(); Clock = 0; Failed = 0; }

            public void Guard(string by, Action a)
            {
                By = by;
                try { a(); }
                catch (Exception e) { Interlocked.Increment(ref Failed); Console.Error.WriteLine(e); }
                By = null;
            }

            public void Settle(string mode)
            {
                while (true)
                {
                    List<Item> now;
                    lock (_lock) { now = _ready; _ready = new List<Item>(); }
                    if (now.Count == 0) return;
                    if (mode == "lifo") now.Reverse();
                    if (mode == "threads" && now.Count > 1)
                    {
                        var waiting = now.Count;
                        var threads = now.Select(i => new Thread(() =>
                        {
                            Interlocked.Decrement(ref waiting);
                            while (Thread.VolatileRead(ref waiting) > 0) Thread.Sleep(0);
                            if (!i.Off) Guard(i.By, i.Do);
                        })).ToList();
                        threads.ForEach(t => t.Start());
                        threads.ForEach(t => t.Join());
                    }
                    else
                        foreach (var i in now)
                            if (!i.Off) Guard(i.By, i.Do);
                }
            }

            public void Forward(double ms)
            {
                var end = Clock + ms;
                while (true)
                {
                    Item next;
                    lock (_lock)
                    {
                        _timers.RemoveAll(i => i.Off);
                        next = _timers.Where(i => i.At <= end).OrderBy(i => i.At).FirstOrDefault();
                        if (next == null) break;
                        Clock = next.At;
                        if (next.Every > 0) next.At += next.Every; else _timers.Remove(next);
                    }
                    Guard("tick", next.Do);
                    Settle("fifo");
                }
                Clock = end;
            }
        }

        private static readonly Manual Sched = new Manual();
        private static readonly object Lock = new object();
        private static List<Obj> _log = new List<Obj>();
        private static bool _installed;
        private static bool _slow;

        private static void Log(Obj o)
        {
            o["by"] = Manual.By ?? "nothing";
            lock (Lock) _log.Add(o);
        }

        private static string Digest(byte[] b)
        {
            return b.Length + " " + string.Join("", SHA1.Create().ComputeHash(b).Take(6).Select(x => x.ToString("x2")).ToArray());
        }

        private class Files : IFileSystemService
        {
            public readonly Dictionary<string, string> Texts = new Dictionary<string, string>();
            public readonly HashSet<string> There = new HashSet<string>();
            private class Out : MemoryStream
            {
                public Files Fs; public string Path; private bool _closed;
                protected override void Dispose(bool d)
                {
                    if (!_closed) Log(new Obj { { "k", "write" }, { "path", Path }, { "content", Digest(ToArray()) } });
                    _closed = true;
                    base.Dispose(d);
                }
            }
            private static string Name(string p) { return p.Replace('\\', '/'); }
            public Stream WriteStream(string path)
            {
                lock (Lock) There.Add(Name(path));
                return new Out { Fs = this, Path = Name(path) };
            }
            public bool Exists(string path)
            {
                bool r;
                lock (Lock) r = There.Contains(Name(path));
                if (_slow) Thread.Sleep(1);
                return r;
            }
            public string ReadText(string path) { return Texts[path]; }
            public Stream ReadStream(string path) { throw new NotSupportedException(); }
            public byte[] ReadBytes(string path) { throw new NotSupportedException(); }
            public string[] GetFiles(string path, string p) { throw new NotSupportedException(); }
            public string[] GetDirectories(string path, string p) { throw new NotSupportedException(); }
            public void CreateDirectory(string path) { }
        }

        private class Network : INetworkService
        {
            public readonly List<Subject<byte[]>> Asked = new List<Subject<byte[]>>();
            public readonly List<string> Servers = new List<string>();
            public readonly List<int> Waiting = new List<int>();
            public IObservable<string> Get(string url, Dictionary<string, string> headers = null) { throw new NotSupportedException(); }
            public IObservable<byte[]> GetAndGetBytes(string url, Dictionary<string, string> headers = null)
            {
                var s = new Subject<byte[]>();
                lock (Lock)
                {
                    Asked.Add(s);
                    var o = Read(url);
                    o["k"] = "request"; o["n"] = Asked.Count;
                    Servers.Add((string)o["server"]); Waiting.Add(Asked.Count);
                    Log(o);
                }
                return s;
            }
        }

        private class Library : IMapDataLibrary
        {
            public readonly HashSet<string> There = new HashSet<string>();
            public readonly List<KeyValuePair<string, Subject<int>>> Adds = new List<KeyValuePair<string, Subject<int>>>();
            public readonly List<Subject<int>> Gets = new List<Subject<int>>();
            public readonly List<int> Importing = new List<int>(), Loading = new List<int>();
            public string Index;
            public readonly List<string> Stores = new List<string>();
            public void Configure(string indexPath) { Index = indexPath; }
            public void EnableCache() { }
            public void DisableCache() { }
            public bool Exists(QuadKey q) { lock (Lock) return There.Contains(q.ToString()); }
            public IObservable<int> Get(Tile tile, IList<IObserver<MapData>> observers)
            {
                var s = new Subject<int>();
                lock (Lock)
                {
                    Gets.Add(s); Loading.Add(Gets.Count);
                    Log(new Obj { { "k", "get" }, { "n", Gets.Count }, { "tile", Id(tile) }, { "observers", observers.Count } });
                }
                return s;
            }
            public IObservable<int> Get(MapQuery query, IList<IObserver<Element>> observers)
            {
                Log(new Obj { { "k", "query" }, { "n", 0 }, { "tile", "" }, { "observers", observers.Count } });
                return Observable.Return(100);
            }
            public void Register(string storageKey) { Stores.Add(storageKey); }
            public void Register(string storageKey, string indexPath) { Stores.Add(storageKey + "@" + indexPath); }
            public IObservable<int> AddTo(string storageKey, string path, Stylesheet stylesheet, Range<int> lods, UtyMap.Unity.CancellationToken token)
            {
                return Add(storageKey, path, "", lods.Minimum, lods.Maximum);
            }
            public IObservable<int> AddTo(string storageKey, string path, Stylesheet stylesheet, QuadKey q, UtyMap.Unity.CancellationToken token)
            {
                return Add(storageKey, path, q.ToString(), q.LevelOfDetail, q.LevelOfDetail);
            }
            private IObservable<int> Add(string store, string path, string key, int from, int to)
            {
                var s = new Subject<int>();
                lock (Lock)
                {
                    Adds.Add(new KeyValuePair<string, Subject<int>>(key, s)); Importing.Add(Adds.Count);
                    Log(new Obj { { "k", "add" }, { "n", Adds.Count }, { "store", store }, { "path", path.Replace('\\', '/') }, { "key", key }, { "lods", new[] { from, to } } });
                }
                return s;
            }
            public IObservable<int> AddTo(string storageKey, Element element, Stylesheet stylesheet, Range<int> lods, UtyMap.Unity.CancellationToken token) { throw new NotSupportedException(); }
            public double GetElevation(ElevationDataType t, QuadKey q, GeoCoordinate c) { throw new NotSupportedException(); }
            public void Dispose() { }
        }

        private class Quiet : ITrace
        {
            public void Dispose() { }
            public void Debug(string c, string m) { }
            public void Debug(string c, string f, string a) { }
            public void Debug(string c, string f, string a, string b) { }
            public void Info(string c, string m) { }
            public void Info(string c, string f, string a) { }
            public void Info(string c, string f, string a, string b) { }
            public void Warn(string c, string m) { }
            public void Warn(string c, string f, string a) { }
            public void Warn(string c, string f, string a, string b) { }
            public void Error(string c, Exception e, string m) { }
            public void Error(string c, Exception e, string f, string a) { Console.Error.WriteLine(e); }
            public void Error(string c, Exception e, string f, string a, string b) { }
        }

        private class On<T> : IObserver<T>
        {
            public Action<T> Next = _ => { };
            public Action Completed = () => { };
            public void OnNext(T v) { Next(v); }
            public void OnError(Exception e) { }
            public void OnCompleted() { Completed(); }
        }

        // what is asked from servers

        private static Obj _cfg;

        private static Match Against(string template, string text)
        {
            var p = Regex.Escape(template);
            for (var i = 0; i < 6; i++) p = p.Replace("\\{" + i + "}", "(?<a" + i + ">.*?)");
            return Regex.Match(text, "^" + p + "$");
        }
        private static int Micro(string s) { return Micro(double.Parse(s, NumberStyles.Float, CultureInfo.InvariantCulture)); }
        private static int Micro(double d) { return (int)Math.Round(d * 1e6); }

        private static List<int[]> Polyline(string s)
        {
            var r = new List<int[]>();
            int i = 0, lat = 0, lon = 0;
            Func<int> next = () =>
            {
                int shift = 0, v = 0, b;
                do { b = s[i++] - 63; v |= (b & 0x1f) << shift; shift += 5; } while (b >= 0x20);
                return (v & 1) != 0 ? ~(v >> 1) : v >> 1;
            };
            while (i < s.Length) { lat += next(); lon += next(); r.Add(new[] { lat, lon }); }
            return r;
        }

        private static Obj Read(string url)
        {
            var o = new Obj { { "uri", url ?? "" }, { "box", new int[0] }, { "points", new int[0][] }, { "server", "?" }, { "key", "" } };
            if (url == null) return o;
            var osm = _cfg.Str("osm");
            var m = url.StartsWith(osm) ? Against(_cfg.Str("query"), Uri.UnescapeDataString(url.Substring(osm.Length))) : Match.Empty;
            if (m.Success)
            {
                o["server"] = "osm"; o["uri"] = "";
                o["box"] = Enumerable.Range(0, 4).Select(i => Micro(m.Groups["a" + i].Value)).ToList();
                return o;
            }
            m = Against(_cfg.Str("ele"), url);
            if (m.Success)
            {
                try
                {
                    var j = (Obj)Json.Parse(m.Groups["a0"].Value);
                    o["points"] = Polyline(j.Str("encoded_polyline"));
                    o["server"] = j.Bool("range") ? "ele with ranges" : "ele"; o["uri"] = "";
                    o["key"] = m.Groups["a1"].Value;
                }
                catch (Exception e) { o["server"] = "ele: " + e.Message; }
                return o;
            }
            if (url.StartsWith(_cfg.Str("srtm"))) o["server"] = "srtm";
            else if (url.StartsWith(_cfg.Str("map").Split('{')[0])) o["server"] = "map";
            return o;
        }

        private static readonly List<KeyValuePair<string, Tile>> Known = new List<KeyValuePair<string, Tile>>();
        private static string Id(Tile t) { return Known.Where(k => ReferenceEquals(k.Value, t)).Select(k => k.Key).FirstOrDefault() ?? "unknown"; }

        private static Files _fs;
        private static Network _net;
        private static Library _lib;
        private static MapDataStore _store;

        private static void Install()
        {
            if (_installed) return;
            _installed = true;
            var f = typeof(Scheduler).GetField("ThreadPool", BindingFlags.Public | BindingFlags.Static);
            f.SetValue(null, Sched);
            if (!ReferenceEquals(Scheduler.ThreadPool, Sched)) throw new Exception("the scheduler stays");
            Scheduler.DefaultSchedulers.TimeBasedOperations = Sched;
        }

        private static int Take(List<int> l, int pick) { var n = l[pick % l.Count]; l.RemoveAt(pick % l.Count); return n; }

        private static void Finish(Obj o, string mode)
        {
            _slow = mode == "threads";
            Sched.Settle(mode);
            _slow = false;
            o["failed"] = Sched.Failed;
            o["log"] = _log;
            _log = new List<Obj>();
        }

        public static void Register(Dictionary<string, Action<Obj, Obj>> ops)
        {
            ops["dt.reset"] = (v, o) =>
            {
                Install();
                Sched.Reset();
                _log = new List<Obj>();
                Known.Clear();
                _cfg = v;
                _fs = new Files(); _net = new Network(); _lib = new Library();
                _fs.Texts["schema"] = v.Str("schema");
                foreach (string s in v.List("files")) _fs.There.Add(s);
                foreach (string s in v.List("library")) _lib.There.Add(s);
                var cb = new ConfigBuilder()
                    .SetLocalElevationData("ele/data").SetIndex("somewhere").SetImport("import")
                    .SetSrtmEleData(v.Str("srtm"), "schema")
                    .SetOsmMapData(v.Str("osm"), v.Str("query"), v.Str("osmformat"))
                    .SetMapzenMapData(v.Str("map"), v.Str("layers"), v.Str("mapformat"), v.Str("mapkey"))
                    .SetMapzenEleData(v.Str("ele"), v.Int("grid"), v.Str("eleformat"), v.Str("elekey"));
                if (!v.Bool("limit")) cb.Add("data/mapzen/limit", false);
                var config = cb.Build();
                var provider = new AggregateMapDataProvider(_fs, _net, _lib, new Quiet());
                _store = new MapDataStore(provider, _lib);
                provider.Configure(config);
                _store.Configure(config);
                for (var i = 0; i < 2; i++)
                {
                    var who = i;
                    _store.Subscribe(new On<MapData>());
                    _store.Subscribe(new On<Tile> { Next = t => Log(new Obj { { "k", "told" }, { "n", who }, { "tile", Id(t) } }) });
                    if (i == 0) _store.Register("first", "there"); else _store.Register("second");
                }
                _store.Subscribe(new On<Element>());
                Finish(o, "fifo");
                o["index"] = _lib.Index; o["stores"] = _lib.Stores;
            };
            ops["dt.tile"] = (v, o) =>
            {
                var t = v.Ints("tile");
                var q = new QuadKey(t[0], t[1], v.Int("lod"));
                var tile = new Tile(q, new Stylesheet("sheet"), new CartesianProjection(new GeoCoordinate(0, 0)), (ElevationDataType)v.Int("elevation"));
                Known.Add(new KeyValuePair<string, Tile>(v.Str("id"), tile));
                // where the tile is, from the definition of the tile scheme
                var n = Math.Pow(2, v.Int("lod"));
                Func<double, double> lat = y => 180 / Math.PI * Math.Atan(Math.Sinh(Math.PI * (1 - 2 * y / n)));
                Func<double, double> lon = x => x / n * 360 - 180;
                o["box"] = new[] { Micro(lat(t[1] + 1)), Micro(lon(t[0])), Micro(lat(t[1])), Micro(lon(t[0] + 1)) };
                o["cell"] = new[] { (int)Math.Floor((lat(t[1] + 1) + lat(t[1])) / 2), (int)Math.Floor((lon(t[0]) + lon(t[0] + 1)) / 2) };
                Sched.Guard(v.Str("id"), () => _store.OnNext(tile));
                Finish(o, "fifo");
            };
            // answers some of the requests which wait
            ops["dt.reply"] = (v, o) =>
            {
                var said = new List<Obj>();
                foreach (Obj r in v.List("replies"))
                {
                    if (_net.Waiting.Count == 0) break;
                    var n = Take(_net.Waiting, r.Int("pick"));
                    var server = _net.Servers[n - 1];
                    var with = r.O(server == "ele" || server == "srtm" ? server : "data");
                    said.Add(new Obj { { "n", n }, { "content", with.Str("content") }, { "good", with.Bool("good") } });
                    Sched.Guard("r" + n, () => { var s = _net.Asked[n - 1]; s.OnNext(Convert.FromBase64String(with.Str("bytes"))); });   // as the service, which never completes
                }
                o["replies"] = said;
                Finish(o, v.Str("mode"));
            };
            ops["dt.fail"] = (v, o) =>
            {
                o["n"] = 0;
                if (_net.Waiting.Count > 0)
                {
                    var n = Take(_net.Waiting, v.Int("pick"));
                    o["n"] = n;
                    Sched.Guard("r" + n, () => _net.Asked[n - 1].OnError(new Exception("no network")));
                }
                Finish(o, "fifo");
            };
            ops["dt.clock"] = (v, o) => { Sched.Forward(v.Int("ms")); Finish(o, "fifo"); };
            ops["dt.imported"] = (v, o) =>
            {
                o["n"] = 0;
                if (_lib.Importing.Count > 0)
                {
                    var n = Take(_lib.Importing, v.Int("pick"));
                    o["n"] = n;
                    var a = _lib.Adds[n - 1];
                    if (a.Key != "") lock (Lock) _lib.There.Add(a.Key);
                    Sched.Guard("a" + n, () => { a.Value.OnNext(100); a.Value.OnCompleted(); });
                }
                Finish(o, "fifo");
            };
            ops["dt.loaded"] = (v, o) =>
            {
                o["n"] = 0;
                if (_lib.Loading.Count > 0)
                {
                    var n = Take(_lib.Loading, v.Int("pick"));
                    o["n"] = n;
                    Sched.Guard("g" + n, () => { var g = _lib.Gets[n - 1]; g.OnNext(100); g.OnCompleted(); });
                }
                Finish(o, "fifo");
            };
            ops["dt.add"] = (v, o) =>
            {
                var t = v.Ints("tile");
                var done = 0;
                Sched.Guard("user", () =>
                {
                    var token = new UtyMap.Unity.CancellationToken();
                    var r = v.Bool("range")
                        ? _store.AddTo(v.Str("store"), v.Str("path"), new Stylesheet("s"), new Range<int>(v.Int("lod"), v.Int("lod") + 2), token)
                        : _store.AddTo(v.Str("store"), v.Str("path"), new Stylesheet("s"), new QuadKey(t[0], t[1], v.Int("lod")), token);
                    r.Subscribe(new On<int> { Completed = () => done++ });
                });
                Finish(o, "fifo");
                o["done"] = done;
            };
        }
    }
}
