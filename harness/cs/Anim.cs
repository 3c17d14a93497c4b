// Animations of the client: life cycle, composition, interpolation.
using System;
using System.Collections.Generic;
using System.Linq;
using System.Reflection;
using UnityEngine;
using UtyMap.Unity;
using UtyMap.Unity.Animations;
using UtyMap.Unity.Animations.Path;
using UtyMap.Unity.Animations.Time;
using PathLinear = UtyMap.Unity.Animations.Path.LinearInterpolator;
using TimeLinear = UtyMap.Unity.Animations.Time.LinearInterpolator;

namespace V
{
    public static class Anim
    {
        private class One
        {
            public UtyMap.Unity.Animations.Animation A;
            public int Finished, Applied, Chained;
            public long Last;
            public string Next;
        }

        private class Moved : TransformAnimation
        {
            public One S;
            public Moved(ITimeInterpolator t, TimeSpan d, bool loop) : base(null, t, d, loop) { }
            protected override void UpdateTransform(Transform transform, float time)
            {
                S.Applied++;
                S.Last = (long)Math.Round((double)time * (1 << 24));
            }
        }

        private class Engine : UtyMap.Unity.Animations.Animator
        {
            public int Frames;
            public One Planned;
            protected override void OnAnimationUpdate(float deltaTime) { Frames++; }
            public override void AnimateTo(GeoCoordinate coordinate, float zoom, TimeSpan duration, ITimeInterpolator timeInterpolator)
            {
                SetAnimation(Planned.A);
            }
        }

        private static Dictionary<string, One> _all;
        private static Engine _engine;

        private static ITimeInterpolator Curve(string k)
        {
            switch (k)
            {
                case "faster": return new AccelerateInterpolator();
                case "faster2": return new AccelerateInterpolator(2);
                case "slower": return new DecelerateInterpolator();
                case "slower2": return new DecelerateInterpolator(2);
                case "both": return new AccelerateDecelerateInterpolator();
            }
            return new TimeLinear();
        }

        private static void State(Obj o)
        {
            var ids = _all.Keys.OrderBy(x => x, StringComparer.Ordinal).ToList();
            var s = new Obj();
            foreach (var k in ids)
            {
                var v = _all[k];
                s[k] = new Obj { { "on", v.A.IsRunning }, { "finished", (double)v.Finished }, { "applied", (double)v.Applied }, { "last", (double)v.Last } };
            }
            o["now"] = s;
            o["frames"] = _engine.Frames;
            o["busy"] = _engine.IsRunningAnimation;
        }

        private static Vector3 Vec(object p)
        {
            var l = ((List<object>)p).ConvertAll(x => (float)(double)x);
            return new Vector3(l[0], l[1], l[2]);
        }

        private static long[] Nums(Vector3 p, float k)
        {
            return new[] { (long)Math.Round(p.x * k), (long)Math.Round(p.y * k), (long)Math.Round(p.z * k) };
        }

        public static void Register(Dictionary<string, Action<Obj, Obj>> ops)
        {
            ops["an.reset"] = (v, o) => { _all = new Dictionary<string, One>(); _engine = new Engine(); };
            ops["an.new"] = (v, o) =>
            {
                var s = new One { Next = v.Str("next"), Chained = v.Int("chain") };
                if (v.Str("kind") == "group")
                    s.A = new CompositeAnimation(v.List("parts").Select(p => _all[(string)p].A).ToList());
                else
                {
                    var m = new Moved(Curve(v.Str("curve")), TimeSpan.FromTicks(v.Int("length") * 156250L), v.Bool("loop"));
                    m.S = s;
                    s.A = m;
                }
                s.A.Finished += (x, e) =>
                {
                    s.Finished++;
                    if (s.Next == "" || s.Chained == 0) return;
                    s.Chained--;
                    _all[s.Next].A.Start();
                };
                _all[v.Str("id")] = s;
                State(o);
            };
            ops["an.start"] = (v, o) => { _all[v.Str("id")].A.Start(); State(o); };
            ops["an.stop"] = (v, o) => { _all[v.Str("id")].A.Stop(); State(o); };
            ops["an.update"] = (v, o) => { var a = _all[v.Str("id")].A; if (a.IsRunning) a.OnUpdate(v.Int("dt") / 64f); State(o); };
            ops["an.plan"] = (v, o) => { _engine.Planned = _all[v.Str("id")]; _engine.AnimateTo(new GeoCoordinate(0, 0), 1, TimeSpan.Zero, null); State(o); };
            ops["an.engine"] = (v, o) =>
            {
                switch (v.Str("do"))
                {
                    case "start": _engine.Start(); break;
                    case "cancel": _engine.Cancel(); break;
                    case "frame": _engine.Update(v.Int("dt") / 64f); break;
                }
                State(o);
            };
            ops["an.curve"] = (v, o) =>
            {
                var c = Curve(v.Str("curve"));
                o["out"] = Enumerable.Range(0, 17).Select(k => (long)Math.Round(c.GetTime(k / 16f) * 1e6)).ToList();
            };
            ops["an.path"] = (v, o) =>
            {
                var p = v.List("points").Select(Vec).ToList();
                o["refused"] = false; o["at"] = new long[] { 0, 0, 0 }; o["towards"] = new long[] { 0, 0, 0 };
                try
                {
                    IPathInterpolator i = v.Str("kind") == "spline" ? (IPathInterpolator)new SplineInterpolator(p) : new PathLinear(p);
                    o["at"] = Nums(i.GetPoint(v.Int("k") / 8f), 512);
                    o["towards"] = Nums(i.GetDirection(v.Int("k") / 8f), 1000);
                }
                catch (ArgumentException) { o["refused"] = true; }
                catch (NotImplementedException) { o["refused"] = true; }
            };
        }
    }
}
