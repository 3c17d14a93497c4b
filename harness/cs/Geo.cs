// Quad keys, boxes, projections.
using System;
using System.Collections.Generic;
using System.Linq;
using UnityEngine;
using UtyMap.Unity;
using UtyMap.Unity.Infrastructure.Primitives;
using UtyMap.Unity.Utils;

namespace V
{
    public static class Geo
    {
        private const double W = 67108864;

        private static GeoCoordinate At(double x, double y)
        {
            var lon = x / W * 360 - 180;
            var lat = Math.Atan(Math.Sinh(Math.PI * (1 - 2 * y / W))) * 180 / Math.PI;
            return new GeoCoordinate(lat, lon);
        }

        private static long Round(double v, ref double err)
        {
            var r = Math.Round(v);
            err = Math.Max(err, Math.Abs(v - r));
            return (long)r;
        }

        private static long[] Plane(BoundingBox b, ref double err)
        {
            Func<double, double> px = lon => (lon + 180) / 360 * W;
            Func<double, double> py = lat => (1 - Asinh(Math.Tan(lat * Math.PI / 180)) / Math.PI) / 2 * W;
            return new[] { Round(px(b.MinPoint.Longitude), ref err), Round(py(b.MaxPoint.Latitude), ref err),
                           Round(px(b.MaxPoint.Longitude), ref err), Round(py(b.MinPoint.Latitude), ref err) };
        }

        private static double Asinh(double v) { return v < 0 ? -Asinh(-v) : Math.Log(v + Math.Sqrt(v * v + 1)); }

        private static double[] Vec(GeoCoordinate c)
        {
            double a = c.Latitude * Math.PI / 180, o = c.Longitude * Math.PI / 180;
            return new[] { Math.Cos(a) * Math.Cos(o), Math.Cos(a) * Math.Sin(o), Math.Sin(a) };
        }

        /// great circle in decimetres
        private static double Circle(GeoCoordinate p, GeoCoordinate q)
        {
            var a = Vec(p); var b = Vec(q);
            double x = a[1] * b[2] - a[2] * b[1], y = a[2] * b[0] - a[0] * b[2], z = a[0] * b[1] - a[1] * b[0];
            return Math.Atan2(Math.Sqrt(x * x + y * y + z * z), a[0] * b[0] + a[1] * b[1] + a[2] * b[2]) * 63710088;
        }

        private static GeoCoordinate Micro(int[] p) { return new GeoCoordinate(p[0] * 1e-6, p[1] * 1e-6); }
        private static BoundingBox Box(int[] b) { return new BoundingBox(new GeoCoordinate(b[0], b[1]), new GeoCoordinate(b[2], b[3])); }
        private static long[] Nums(BoundingBox b)
        {
            return new[] { (long)b.MinPoint.Latitude, (long)b.MinPoint.Longitude, (long)b.MaxPoint.Latitude, (long)b.MaxPoint.Longitude };
        }

        public static void Register(Dictionary<string, Action<Obj, Obj>> ops)
        {
            ops["q.key"] = (v, o) =>
            {
                var p = v.Ints("p");
                var q = GeoUtils.CreateQuadKey(At(p[0], p[1]), v.Int("lod"));
                o["tile"] = new[] { q.TileX, q.TileY };
            };
            ops["q.box"] = (v, o) =>
            {
                var t = v.Ints("tile");
                double err = 0;
                o["box"] = Plane(GeoUtils.QuadKeyToBoundingBox(new QuadKey(t[0], t[1], v.Int("lod"))), ref err);
                o["exact"] = err < 1e-3;
            };
            ops["q.str"] = (v, o) =>
            {
                var t = v.Ints("tile");
                o["digits"] = new QuadKey(t[0], t[1], v.Int("lod")).ToString().Select(c => c - '0').ToList();
            };
            ops["q.parse"] = (v, o) =>
            {
                var s = new string(v.Ints("digits").Select(d => (char)('0' + d)).ToArray());
                o["refused"] = false; o["lod"] = 0; o["tile"] = new[] { 0, 0 };
                try
                {
                    var q = QuadKey.FromString(s);
                    o["lod"] = q.LevelOfDetail;
                    o["tile"] = new[] { q.TileX, q.TileY };
                }
                catch (ArgumentException) { o["refused"] = true; }
            };
            ops["q.range"] = (v, o) =>
            {
                var b = v.Ints("box");
                GeoCoordinate nw = At(b[0], b[1]), se = At(b[2], b[3]);
                var box = new BoundingBox(new GeoCoordinate(se.Latitude, nw.Longitude), new GeoCoordinate(nw.Latitude, se.Longitude));
                o["out"] = GeoUtils.BoundingBoxToQuadKeys(box, v.Int("lod")).Select(q => new[] { q.TileX, q.TileY }).ToList();
                o["exact"] = true;
            };
            ops["q.box.ops"] = (v, o) =>
            {
                BoundingBox a = Box(v.Ints("a")), b = Box(v.Ints("b"));
                var pi = v.Ints("p");
                var p = new GeoCoordinate(pi[0], pi[1]);
                o["meets"] = a.Intersects(b);
                o["inside"] = a.Contains(p);
                var m = a.Center();
                o["middle2"] = new[] { (long)(m.Latitude * 2), (long)(m.Longitude * 2) };
                o["joined"] = Nums(Box(v.Ints("a")) + b);
                var g = Box(v.Ints("a"));
                if (v.Bool("extend")) g.Extend(p); else g = g + p;
                o["grown"] = Nums(g);
            };
            ops["g.dist"] = (v, o) =>
            {
                GeoCoordinate a = Micro(v.Ints("a")), b = Micro(v.Ints("b"));
                o["dist"] = (long)Math.Round(GeoUtils.Distance(a, b) * 10);
                o["back"] = (long)Math.Round(GeoUtils.Distance(b, a) * 10);
                o["circle"] = (long)Math.Round(Circle(a, b));
            };
            ops["g.move"] = (v, o) =>
            {
                var a = Micro(v.Ints("a"));
                int x = v.Int("x"), y = v.Int("y");
                var g = v.Bool("projection") ? new CartesianProjection(a).Project(new Vector3(x, 7, y)) : GeoUtils.ToGeoCoordinate(a, x, y);
                o["east"] = (long)Math.Round(Circle(a, new GeoCoordinate(a.Latitude, g.Longitude)));
                o["north"] = (long)Math.Round(Circle(a, new GeoCoordinate(g.Latitude, a.Longitude)));
                o["eastward"] = Math.Sign(Math.Round((g.Longitude - a.Longitude) * 1e9));
                o["northward"] = Math.Sign(Math.Round((g.Latitude - a.Latitude) * 1e9));
                var m = GeoUtils.ToMapCoordinate(a, g);
                o["returned"] = (long)Math.Ceiling(Math.Max(Math.Abs(m.x - x), Math.Abs(m.y - y)) * 10);   // decimetres
            };
            ops["g.around"] = (v, o) =>
            {
                var a = Micro(v.Ints("a"));
                var b = BoundingBox.Create(a, v.Int("width"), v.Int("height"));
                o["wide"] = (long)Math.Round(Circle(new GeoCoordinate(a.Latitude, b.MinPoint.Longitude), new GeoCoordinate(a.Latitude, b.MaxPoint.Longitude)));
                o["high"] = (long)Math.Round(Circle(new GeoCoordinate(b.MinPoint.Latitude, a.Longitude), new GeoCoordinate(b.MaxPoint.Latitude, a.Longitude)));
                var c = b.Center();
                o["off"] = (long)Math.Round(Math.Max(Math.Abs(c.Latitude - a.Latitude), Math.Abs(c.Longitude - a.Longitude)) * 1e6);
            };
            ops["g.rect"] = (v, o) =>
            {
                var t = v.Ints("tile");
                var q = new QuadKey(t[0], t[1], v.Int("lod"));
                var b = GeoUtils.QuadKeyToBoundingBox(q);
                IProjection p = new CartesianProjection(b.Center());
                if (v.Bool("scaled")) p = new ScaledProjection(p, .5f);
                var r = GeoUtils.RectToBoundingBox(p, GeoUtils.QuadKeyToRect(p, q));
                double h = b.MaxPoint.Latitude - b.MinPoint.Latitude, w = b.MaxPoint.Longitude - b.MinPoint.Longitude;
                var d = new[] { (r.MinPoint.Latitude - b.MinPoint.Latitude) / h, (r.MaxPoint.Latitude - b.MaxPoint.Latitude) / h,
                                (r.MinPoint.Longitude - b.MinPoint.Longitude) / w, (r.MaxPoint.Longitude - b.MaxPoint.Longitude) / w };
                o["off"] = (long)Math.Ceiling(d.Max(x => Math.Abs(x)) * 1e6);
            };
            ops["g.sphere"] = (v, o) =>
            {
                var a = Micro(v.Ints("a"));
                int radius = v.Int("radius"), height = v.Int("height");
                var p = new SphericalProjection(radius).Project(a, height);
                double n = Math.Sqrt((double)p.x * p.x + (double)p.y * p.y + (double)p.z * p.z);
                double lat = Math.Asin(p.y / n) * 180 / Math.PI, lon = Math.Atan2(p.z, p.x) * 180 / Math.PI;
                var e = new[] { Math.Abs(n / (radius + height) - 1) * 1e6, Math.Abs(lat - a.Latitude) * 1e6 * Math.Cos(a.Latitude * Math.PI / 180),
                                Math.Abs(lon - a.Longitude) * 1e6 * Math.Cos(a.Latitude * Math.PI / 180) };
                o["off"] = (long)Math.Ceiling(e.Max());
            };
        }
    }
}
