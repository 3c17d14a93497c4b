// A program which uses the library through its C# client.
using System;
using System.Collections.Generic;
using System.Globalization;
using System.IO;
using System.Linq;
using System.Reflection;
using System.Runtime.InteropServices;
using System.Text;
using System.Threading;
using UnityEngine;
using UtyMap.Unity;
using UtyMap.Unity.Data;
using UtyMap.Unity.Geocoding;
using UtyMap.Unity.Infrastructure.Diagnostic;
using UtyMap.Unity.Infrastructure.IO;
using UtyMap.Unity.Infrastructure.Primitives;
using UtyRx;
using Mesh = UtyMap.Unity.Mesh;
using CancellationToken = UtyMap.Unity.CancellationToken;

namespace V
{
    public static class Client
    {
        [DllImport("UtyMap.Shared")]
        private static extern void disconnect();

        // ---- what surrounds the client
        private class Trace : ITrace
        {
            public void Dispose() { }
            public void Debug(string c, string m) { }
            public void Debug(string c, string f, string a) { }
            public void Debug(string c, string f, string a, string b) { }
            public void Info(string c, string m) { }
            public void Info(string c, string f, string a) { }
            public void Info(string c, string f, string a, string b) { }
            public void Warn(string c, string m) { }
            public void Warn(string c, string f, string a) { }
            public void Warn(string c, string f, string a, string b) { }
            public void Error(string c, Exception e, string m) { Failed(e); }
            public void Error(string c, Exception e, string f, string a) { Failed(e); }
            public void Error(string c, Exception e, string f, string a, string b) { Failed(e); }
        }

        /// Paths are known by where they are in the folder of the session.
        private class Resolver : IPathResolver
        {
            public string Resolve(string path) { return _dir + "/" + path; }
        }

        /// The vertices themselves, in the precision in which meshes are kept.
        private class Plain : IProjection
        {
            public Vector3 Project(GeoCoordinate c, double height) { return new Vector3((float) c.Longitude, (float) height, (float) c.Latitude); }
            public GeoCoordinate Project(Vector3 v) { throw new NotImplementedException(); }
        }

        private static int _failed;
        private static void Failed(object what)
        {
            Interlocked.Increment(ref _failed);
            Console.Error.WriteLine(what);
        }

        // ---- the grid, as in harness/cpp/vcommon.hpp
        private static double _n, _x, _y, _k;
        private static GeoCoordinate Geo(double u, double v)
        {
            double fx = (_x + u / _k) / _n, fy = (_y + v / _k) / _n;
            return new GeoCoordinate(Math.Atan(Math.Sinh(Math.PI * (1 - 2 * fy))) * 180 / Math.PI, fx * 360 - 180);
        }
        private static void Grid(double lon, double lat, out double u, out double v)
        {
            var fx = (lon + 180) / 360;
            var t = Math.Tan(lat * Math.PI / 180);
            var fy = (1 - Math.Log(t + Math.Sqrt(t * t + 1)) / Math.PI) / 2;
            u = (fx * _n - _x) * _k;
            v = (fy * _n - _y) * _k;
        }

        private static string Text(object v) { return v is string ? (string) v : string.Join("", ((List<object>) v).Select(x => (string) x).ToArray()); }
        private static double[] Nums(object v) { return ((List<object>) v).Select(x => (double) x).ToArray(); }

        // ---- the session
        private static readonly string Base = Directory.GetCurrentDirectory();
        // ids of a history are small, those of its elements are not
        private static long _ids;
        private static long Wide(double id) { return id == 0 ? 0 : (long) id + _ids; }
        private static long Narrow(long id) { return id == 0 ? 0 : id - _ids >= 0 && id - _ids < 2000000000 ? id - _ids : -1; }
        private static string Called(string name)
        {
            long id;
            var at = name.IndexOf(':');
            return at >= 0 && long.TryParse(name.Substring(at + 1), out id) ? name.Substring(0, at + 1) + Narrow(id) : name;
        }
        private static int _epoch, _serial;
        private static string _dir;
        private static IMapDataLibrary _lib;
        private static readonly Dictionary<string, Stylesheet> Sheets = new Dictionary<string, Stylesheet>();

        private static Stylesheet Sheet(string name)
        {
            lock (Sheets)
            {
                if (!Sheets.ContainsKey(name)) Sheets[name] = new Stylesheet(name + ".mapcss");
                return Sheets[name];
            }
        }

        private static QuadKey Key(Obj o, string k) { var t = o.Ints(k); return new QuadKey(t[1], t[2], t[0]); }
        private static Range<int> Lods(Obj o) { var l = o.Ints("lods"); return new Range<int>(l[0], l[1]); }

        private static void Reset(Obj v, Obj o)
        {
            if (_lib != null) disconnect();
            _lib = null;
            if (_dir != null) Directory.Delete(_dir, true);
            _dir = Base + "/client" + ++_epoch;
            Directory.CreateDirectory(_dir + "/index/data");
            Directory.CreateDirectory(_dir + "/index/cache");
            for (int i = 0; i < 20; ++i) Directory.CreateDirectory(_dir + "/index/data/" + i);
            var g = v.O("grid");
            _ids = g.ContainsKey("hi") ? (long) g.Int("hi") << 32 : 0;
            _n = Math.Pow(2, g.Int("lod")); _x = g.Int("x"); _y = g.Int("y"); _k = g.Int("k");
            Sheets.Clear();
        }

        private static void Write(Obj v, Obj o) { File.WriteAllText(_dir + "/" + v.Str("sheet") + ".mapcss", v.Str("text")); }

        private static void Heights(Obj v, Obj o)
        {
            var t = Key(v, "tile");
            var h = v.Int("h");
            var code = new StringBuilder();
            for (int i = t.LevelOfDetail; i > 0; --i)
                code.Append((char) ('0' + ((t.TileX >> (i - 1)) & 1) + 2 * ((t.TileY >> (i - 1)) & 1)));
            File.WriteAllText(_dir + "/index/data/" + t.LevelOfDetail + "/" + code + ".ele", string.Format("{0} {0} {0} {0}", h));
        }

        private static void Cell(Obj v, Obj o)
        {
            var c = Geo(0, 0);
            int la = (int) Math.Floor(c.Latitude), lo = (int) Math.Floor(c.Longitude), h = v.Int("h");
            var name = string.Format("{0}{1:00}{2}{3:000}.hgt", la < 0 ? 'S' : 'N', Math.Abs(la), lo < 0 ? 'W' : 'E', Math.Abs(lo));
            var b = new byte[1201 * 1201 * 2];
            for (int i = 0; i < b.Length; i += 2) { b[i] = (byte) (h >> 8); b[i + 1] = (byte) h; }
            File.WriteAllBytes(_dir + "/index/data/" + name, b);
        }

        private static string Num(double d) { return d.ToString("R", CultureInfo.InvariantCulture); }
        private static string Xml(string s) { return s.Replace("&", "&amp;").Replace("<", "&lt;").Replace(">", "&gt;").Replace("\"", "&quot;"); }
        private static string XmlTags(Obj e)
        {
            return string.Join("", e.List("tags").Select(t => "<tag k=\"" + Xml(Text(((List<object>) t)[0])) + "\" v=\"" + Xml(Text(((List<object>) t)[1])) + "\"/>\n").ToArray());
        }
        private static string XmlFile(List<object> els)
        {
            var nodes = new StringBuilder();
            var ways = new StringBuilder();
            long id = 100000000;
            Action<long, double[], string> node = (i, p, tags) =>
            {
                var c = Geo(p[0], p[1]);
                nodes.Append("<node id=\"" + i + "\" lat=\"" + Num(c.Latitude) + "\" lon=\"" + Num(c.Longitude) + "\">" + tags + "</node>\n");
            };
            foreach (Obj e in els)
            {
                if (e.Str("t") == "N") node(Wide(e.Num("id")), Nums(e.List("g")[0]), XmlTags(e));
                else
                {
                    ways.Append("<way id=\"" + Wide(e.Num("id")) + "\">");
                    foreach (var p in e.List("g")) { node(id, Nums(p), ""); ways.Append("<nd ref=\"" + id++ + "\"/>"); }
                    ways.Append(XmlTags(e) + "</way>\n");
                }
            }
            return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<osm version=\"0.6\">\n" + nodes + ways + "</osm>\n";
        }

        // ---- what is told
        private class Told
        {
            public readonly List<object> Elements = new List<object>(), Meshes = new List<object>();
            public bool Odd;
            public Action Stop;
            public int Threads;

            public void Add(Tile tile, MapData data)
            {
                if (data.Tile != tile) Odd = true;
                data.Variant.Match(Add, Add);
            }
            public void Add(Element e)
            {
                lock (this) Elements.Add(Of(e));
                if (Stop != null) Stop();
            }
            private void Add(Mesh m)
            {
                lock (this) Meshes.Add(Of(m));
                if (Stop != null) Stop();
            }
        }

        private class Watch<T> : IObserver<T>
        {
            private readonly Action<T> _do;
            public Watch(Action<T> what) { _do = what; }
            public void OnNext(T value) { _do(value); }
            public void OnError(Exception e) { Failed(e); }
            public void OnCompleted() { }
        }

        private static List<object> Pairs(Dictionary<string, string> d) { return d.Select(p => (object) new List<object> { p.Key, p.Value }).ToList(); }

        private static Obj Of(Element e)
        {
            var odd = e.Geometry.Length != e.Heights.Length;
            var g = new List<object>();
            foreach (var c in e.Geometry)
            {
                double u, v;
                Grid(c.Longitude, c.Latitude, out u, out v);
                double a = Math.Round(u), b = Math.Round(v);
                if (Math.Max(Math.Abs(u - a), Math.Abs(v - b)) > 1e-4) odd = true;
                g.Add(new List<object> { (long) a, (long) b });
            }
            var o = new Obj();
            o["id"] = Narrow(e.Id); o["odd"] = odd; o["tags"] = Pairs(e.Tags); o["g"] = g;
            o["h"] = e.Heights.Select(h => (object) (long) Math.Round(h * 1000)).ToList();
            o["style"] = Pairs(e.Styles);
            return o;
        }

        private static readonly Color[] Palette = { new Color(1, 0, 0, 1), new Color(0, 0, 1, 1), new Color(0, 128 / 255f, 0, 1), new Color(1, 1, 0, 1) };

        private static Obj Of(Mesh m)
        {
            ulong h = 1469598103934665603UL;
            Action<byte[]> mix = b => { foreach (var x in b) { h ^= x; h *= 1099511628211UL; } };
            double[] lo = { 1e18, 1e18, 1e18 }, hi = { -1e18, -1e18, -1e18 };
            foreach (var p in m.Vertices)
            {
                mix(BitConverter.GetBytes(p.x)); mix(BitConverter.GetBytes(p.y)); mix(BitConverter.GetBytes(p.z));
                var q = new double[3];
                Grid(p.x, p.z, out q[0], out q[1]);
                q[2] = p.y;
                for (int k = 0; k < 3; ++k) { lo[k] = Math.Min(lo[k], q[k]); hi[k] = Math.Max(hi[k], q[k]); }
            }
            foreach (var t in m.Triangles) mix(BitConverter.GetBytes(t));
            foreach (var c in m.Colors) { mix(BitConverter.GetBytes(c.r)); mix(BitConverter.GetBytes(c.g)); mix(BitConverter.GetBytes(c.b)); mix(BitConverter.GetBytes(c.a)); }
            Func<double[], object> r3 = p => p.Select(x => (object) (long) Math.Round(Math.Max(-1e5, Math.Min(1e5, x)) * 1000)).ToList();
            var o = new Obj();
            o["name"] = Called(m.Name); o["digest"] = h.ToString("x16"); o["lo"] = r3(lo); o["hi"] = r3(hi);
            o["colors"] = m.Colors.Select(c => 1 + Array.FindIndex(Palette, p => Math.Abs(p.r - c.r) + Math.Abs(p.g - c.g) + Math.Abs(p.b - c.b) + Math.Abs(p.a - c.a) < 1e-4)).Distinct().OrderBy(x => x).ToList();
            o["points"] = m.Vertices.Length; o["corners"] = m.Triangles.Length; o["tints"] = m.Colors.Length;
            o["within"] = m.Triangles.All(t => t >= 0 && t < m.Vertices.Length);
            o["maps"] = new List<object> { m.Uvs.Length, m.Uvs2.Length, m.Uvs3.Length };
            return o;
        }

        private static void Wait(UtyRx.IObservable<int> progress)
        {
            if (progress == null) { Failed("no progress"); return; }
            progress.Subscribe(x => { }, e => Failed(e));
        }

        private static void Request(Obj v, Obj o, bool alone)
        {
            var ev = v.Str("ev");
            var before = _failed;
            try
            {
                if (ev == "add")
                {
                    var e = v.O("el");
                    var g = e.List("g").Select(p => { var q = Nums(p); return Geo(q[0], q[1]); }).ToArray();
                    var tags = new Dictionary<string, string>();
                    foreach (List<object> t in e.List("tags")) tags[Text(t[0])] = Text(t[1]);
                    Wait(_lib.AddTo(v.Str("key"), new Element(Wide(e.Num("id")), g, new double[g.Length], tags, new Dictionary<string, string>()),
                        Sheet(v.Str("sheet")), Lods(v), new CancellationToken()));
                }
                else if (ev == "import")
                {
                    var file = "f" + Interlocked.Increment(ref _serial) + "." + v.Str("as");
                    File.WriteAllText(_dir + "/" + file, XmlFile(v.List("els")));
                    if (v.ContainsKey("tile")) Wait(_lib.AddTo(v.Str("key"), file, Sheet(v.Str("sheet")), Key(v, "tile"), new CancellationToken()));
                    else Wait(_lib.AddTo(v.Str("key"), file, Sheet(v.Str("sheet")), Lods(v), new CancellationToken()));
                }
                else if (ev == "has") o["res"] = _lib.Exists(Key(v, "tile"));
                else if (ev == "get" || ev == "text")
                {
                    // two listen, and hear the same
                    var told = new[] { new Told(), new Told() };
                    var stop = v.Str("cancel");
                    if (ev == "get")
                    {
                        var tile = new Tile(Key(v, "tile"), Sheet(v.Str("sheet")), new Plain(), (ElevationDataType) v.Int("ele"));
                        if (stop == "before") tile.Dispose();
                        if (stop == "first") told[1].Stop = tile.Dispose;
                        if (stop == "throw") told[1].Stop = () => { throw new ApplicationException("listener"); };
                        Wait(_lib.Get(tile, told.Select(t => (UtyRx.IObserver<MapData>) new Watch<MapData>(d => t.Add(tile, d))).ToList()));
                    }
                    else
                    {
                        var b = v.Ints("box");
                        var query = new MapQuery(Text(v["nots"]), Text(v["ands"]), Text(v["ors"]), new BoundingBox(Geo(b[0], b[3]), Geo(b[2], b[1])), Lods(v));
                        if (stop == "before") query.CancelToken.SetCancelled(true);
                        if (stop == "throw") told[1].Stop = () => { throw new ApplicationException("listener"); };
                        if (stop == "first") told[1].Stop = () => query.CancelToken.SetCancelled(true);
                        Wait(_lib.Get(query, told.Select(t => (UtyRx.IObserver<Element>) new Watch<Element>(t.Add)).ToList()));
                    }
                    o["elements"] = told[0].Elements; o["meshes"] = told[0].Meshes;
                    o["strange"] = told[0].Odd || told[1].Odd || Json.Of(told[0].Elements) != Json.Of(told[1].Elements) || Json.Of(told[0].Meshes) != Json.Of(told[1].Meshes);
                }
                else if (ev == "height")
                {
                    var at = Nums(v["at"]);
                    o["res"] = (long) Math.Round(_lib.GetElevation((ElevationDataType) v.Int("ele"), Key(v, "tile"), Geo(at[0], at[1])) * 1000);
                }
                else throw new ArgumentException("unknown request " + ev);
            }
            catch (ArgumentException) { throw; }
            catch (Exception e) { Failed(e); }
            // said in whatever way
            if (alone) o["errors"] = _failed > before ? 1 : 0;
        }

        private static void All(Obj v, Obj o)
        {
            var threads = v.List("threads").Select(t => ((List<object>) t).Select(x => (Obj) x).ToArray()).ToArray();
            var res = threads.Select(t => t.Select(x => new Obj()).ToArray()).ToArray();
            var ready = 0;
            var ts = threads.Select((t, i) => new Thread(() =>
            {
                Interlocked.Increment(ref ready);
                while (Thread.VolatileRead(ref ready) < threads.Length) Thread.Sleep(0);
                for (int k = 0; k < t.Length; ++k)
                {
                    try { Request(t[k], res[i][k], false); }
                    catch (Exception e) { Failed(e); }
                }
            })).ToList();
            ts.ForEach(t => t.Start());
            ts.ForEach(t => t.Join());
            o["res"] = res;
            o["errors"] = _failed;
        }

        private static void Connect(Obj v, Obj o)
        {
            if (_lib != null) disconnect();
            _coder = null;
            Readers.Clear();
            _lib = (IMapDataLibrary) Activator.CreateInstance(typeof(IMapDataLibrary).Assembly.GetType("UtyMap.Unity.Data.MapDataLibrary"), new Resolver(), new Trace());
            _lib.Configure("index/");
            o["errors"] = _failed;
            o["import"] = Directory.Exists(_dir + "/index/import");
        }

        // ---- what is where, from the stores
        private class Provider : IMapDataProvider
        {
            public IDisposable Subscribe(UtyRx.IObserver<UtyRx.Tuple<Tile, string>> observer) { return UtyRx.Disposable.Empty; }
            public void Configure(UtyDepend.Config.IConfigSection c) { }
            public void OnNext(Tile tile) { throw new InvalidOperationException("nobody asked for a tile"); }
            public void OnError(Exception e) { Failed(e); }
            public void OnCompleted() { }
        }

        private class Reader : UtyRx.IObserver<GeocoderResult>
        {
            public readonly List<object> Heard = new List<object>();
            public int Ends;
            public void OnNext(GeocoderResult r)
            {
                var o = Of(r.Element);
                o["name"] = r.DisplayName;
                Heard.Add(o);
            }
            public void OnError(Exception e) { Failed(e); }
            public void OnCompleted() { ++Ends; }
        }

        private static UtyMapGeocoder _coder;
        private static readonly List<Reader> Readers = new List<Reader>();

        private static void Find(Obj v, Obj o)
        {
            if (_coder == null) _coder = new UtyMapGeocoder(new MapDataStore(new Provider(), _lib));
            while (Readers.Count < v.Int("readers"))
            {
                var r = new Reader();
                Readers.Add(r);
                _coder.Subscribe(r);
            }
            Readers.ForEach(r => { r.Heard.Clear(); r.Ends = 0; });
            var before = _failed;
            if (v.Str("ev") == "find")
            {
                var b = v.Ints("box");
                ((UtyRx.IObserver<UtyRx.Tuple<string, BoundingBox>>) _coder).OnNext(UtyRx.Tuple.Create(Text(v["name"]), new BoundingBox(Geo(b[0], b[3]), Geo(b[2], b[1]))));
            }
            else if (v.Str("ev") == "around")
            {
                var at = Nums(v["at"]);
                ((UtyRx.IObserver<UtyRx.Tuple<GeoCoordinate, float>>) _coder).OnNext(UtyRx.Tuple.Create(Geo(at[0], at[1]), (float) v.Int("metres")));
            }
            else _coder.Dispose();
            o["elements"] = Readers.Count == 0 ? new List<object>() : Readers[0].Heard;
            o["strange"] = Readers.Any(r => Json.Of(r.Heard) != Json.Of(Readers[0].Heard));
            o["ends"] = Readers.Select(r => (object) (long) r.Ends).ToList();
            o["errors"] = _failed - before;
            if (v.Str("ev") == "leave") { _coder = null; Readers.Clear(); }
        }

        public static void Register(Dictionary<string, Action<Obj, Obj>> ops)
        {
            foreach (var n in new[] { "find", "around", "leave" }) ops[n] = Find;
            Places.Register(ops);
            ops["reset"] = Reset;
            ops["write"] = Write;
            ops["ele"] = Heights;
            ops["cell"] = Cell;
            ops["connect"] = Connect;
            ops["again"] = (v, o) => { _lib.Configure("index/"); o["errors"] = _failed; };
            ops["disconnect"] = (v, o) => { disconnect(); _lib = null; };
            ops["style"] = (v, o) => { };
            ops["memory"] = (v, o) => _lib.Register(v.Str("key"));
            ops["disk"] = (v, o) =>
            {
                _lib.Register(v.Str("key"), v.Str("path"));
                o["lods"] = Directory.GetDirectories(_dir + "/" + v.Str("path")).Select(p => int.Parse(Path.GetFileName(p))).OrderBy(x => x).Select(x => x.ToString()).ToList();
            };
            ops["cache"] = (v, o) => { if (v.Bool("on")) _lib.EnableCache(); else _lib.DisableCache(); };
            ops["par"] = All;
            foreach (var n in new[] { "add", "import", "has", "get", "text", "height" }) ops[n] = (v, o) => Request(v, o, true);
            foreach (var n in ops.Keys.ToList())
            {
                var f = ops[n];
                ops[n] = (v, o) => { _failed = 0; f(v, o); };
            }
        }
    }
}
