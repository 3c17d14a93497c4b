// Where things are: the geocoder which asks a server, with a network in its place.
using System;
using System.Collections.Generic;
using System.Globalization;
using System.Linq;
using System.Threading;
using UtyMap.Unity;
using UtyMap.Unity.Geocoding;
using UtyMap.Unity.Infrastructure.Config;
using UtyMap.Unity.Infrastructure.IO;
using UtyRx;

namespace V
{
    public static class Places
    {
        private class Network : INetworkService
        {
            public readonly List<Subject<string>> Asked = new List<Subject<string>>();
            public readonly List<Obj> New = new List<Obj>();

            public UtyRx.IObservable<string> Get(string url, Dictionary<string, string> headers = null)
            {
                var s = new Subject<string>();
                Asked.Add(s);
                var at = url.IndexOf('?');
                var o = new Obj();
                o["server"] = at < 0 ? url : url.Substring(0, at);
                var ps = at < 0 ? new string[0] : url.Substring(at + 1).Split('&').Where(x => x != "").ToArray();
                o["agent"] = headers != null && headers.ContainsKey("User-Agent") && headers["User-Agent"] != "";
                o["box"] = new List<object>();
                o["at"] = new List<object>();
                o["q"] = new List<object>();
                o["format"] = "";
                string lat = "", lon = "";
                foreach (var p in ps)
                {
                    var eq = p.IndexOf('=');
                    var k = Read(eq < 0 ? p : p.Substring(0, eq));
                    var v = eq < 0 ? "" : Read(p.Substring(eq + 1));
                    if (k == "q") ((List<object>) o["q"]).Add(v);
                    else if (k == "format") o["format"] = v;
                    else if (k == "viewbox") o["box"] = v.Split(',').Select(x => Int(x, 1e4)).ToList();
                    else if (k == "lat") lat = v;
                    else if (k == "lon") lon = v;
                }
                if (lat != "" || lon != "") o["at"] = new List<object> { Int(lat, 1e6), Int(lon, 1e6) };
                New.Add(o);
                return s;
            }
            public UtyRx.IObservable<byte[]> GetAndGetBytes(string url, Dictionary<string, string> headers = null) { throw new NotSupportedException(); }
        }

        private static string Read(string s) { return Uri.UnescapeDataString(s.Replace('+', ' ')); }
        private static object Int(string s, double k)
        {
            double d;
            if (!double.TryParse(s, NumberStyles.Float, CultureInfo.InvariantCulture, out d) || Math.Abs(d * k) > 1e9) return 999999999L;
            return (long) Math.Round(d * k);
        }

        private class Listener : UtyRx.IObserver<GeocoderResult>
        {
            public List<object> Heard = new List<object>();
            public int Ends, Errors;
            public void OnNext(GeocoderResult r)
            {
                var o = new Obj();
                var e = r.Element;
                o["id"] = e.Id.ToString(CultureInfo.InvariantCulture);
                o["at"] = e.Geometry.SelectMany(c => new object[] { (long) Math.Round(c.Latitude * 1e7), (long) Math.Round(c.Longitude * 1e7) }).ToList();
                o["name"] = r.DisplayName;
                var b = r.BoundingBox;
                o["box"] = b == null ? new List<object>()
                    : new[] { b.MinPoint.Latitude, b.MinPoint.Longitude, b.MaxPoint.Latitude, b.MaxPoint.Longitude }.Select(x => (object) (long) Math.Round(x * 1e7)).ToList();
                Heard.Add(o);
            }
            public void OnError(Exception e) { ++Errors; }
            public void OnCompleted() { ++Ends; }
        }

        private static Network _net;
        private static NominatimGeocoder _coder;
        private static readonly List<Listener> Listeners = new List<Listener>();

        private static void Heard(Obj o)
        {
            o["heard"] = Listeners.Select(l => (object) l.Heard).ToList();
            o["ends"] = Listeners.Select(l => (object) (long) l.Ends).ToList();
            o["errors"] = Listeners.Sum(l => l.Errors);
            foreach (var l in Listeners) { l.Heard = new List<object>(); l.Ends = 0; l.Errors = 0; }
            o["asked"] = _net.New.ToList();
            _net.New.Clear();
        }

        private static GeoCoordinate At(int[] p, int i, double k) { return new GeoCoordinate(p[i] / k, p[i + 1] / k); }

        public static void Register(Dictionary<string, Action<Obj, Obj>> ops)
        {
            ops["coder"] = (v, o) =>
            {
                Listeners.Clear();
                _net = new Network();
                _coder = new NominatimGeocoder(_net);
                var config = new CodeConfigSection();
                if (v.Str("search") != "") config.Add("geocoding", v.Str("search") + "?");
                if (v.Str("reverse") != "") config.Add("reverse_geocoding", v.Str("reverse") + "?");
                _coder.Configure(config);
                Heard(o);
            };
            ops["listen"] = (v, o) => { var l = new Listener(); Listeners.Add(l); _coder.Subscribe(l); Heard(o); };
            ops["search"] = (v, o) =>
            {
                var b = v.Ints("box");
                ((UtyRx.IObserver<UtyRx.Tuple<string, BoundingBox>>) _coder).OnNext(UtyRx.Tuple.Create(v.Str("name"),
                    b.Length == 0 ? null : new BoundingBox(At(b, 0, 1e4), At(b, 2, 1e4))));
                Heard(o);
            };
            ops["where"] = (v, o) =>
            {
                ((UtyRx.IObserver<UtyRx.Tuple<GeoCoordinate, float>>) _coder).OnNext(UtyRx.Tuple.Create(At(v.Ints("at"), 0, 1e6), (float) v.Int("size")));
                Heard(o);
            };
            ops["reply"] = (v, o) =>
            {
                var s = _net.Asked[v.Int("n") - 1];
                if (v.Str("text") == "") s.OnError(new Exception("no network"));
                else { s.OnNext(v.Str("text")); if (v.Bool("end")) s.OnCompleted(); }
                Heard(o);
            };
            ops["close"] = (v, o) => { _coder.Dispose(); Heard(o); };
            foreach (var n in new[] { "coder", "listen", "search", "where", "reply", "close" })
            {
                var f = ops[n];
                ops[n] = (v, o) =>
                {
                    var before = Thread.CurrentThread.CurrentCulture;
                    Thread.CurrentThread.CurrentCulture = new CultureInfo(v.Str("culture"));
                    try { f(v, o); }
                    finally { Thread.CurrentThread.CurrentCulture = before; }
                };
            }
        }
    }
}
