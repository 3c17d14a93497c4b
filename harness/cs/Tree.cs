// Interval tree of the client.
using System;
using System.Collections.Generic;
using System.Linq;
using UtyMap.Unity.Infrastructure.Primitives;

namespace V
{
    public static class Tree
    {
        private interface ITree
        {
            void Do(string ev, Obj v, Obj o);
        }

        private class By<K> : IComparer<K>
        {
            private readonly Func<K, K, int> _f;
            public By(Func<K, K, int> f) { _f = f; }
            public int Compare(K a, K b) { return _f(a, b); }
        }

        private class Of<K> : ITree
        {
            private readonly RangeTree<K, int> _t;
            private readonly Func<int, K> _to;
            private readonly Func<K, int> _from;

            public Of(IComparer<K> c, Func<int, K> to, Func<K, int> from)
            {
                _t = c == null ? new RangeTree<K, int>() : new RangeTree<K, int>(c);
                _to = to;
                _from = from;
            }

            private int[] Item(RangeValuePair<K, int> p) { return new[] { _from(p.From), _from(p.To), p.Value }; }
            private RangeValuePair<K, int> Pair(Obj v) { var i = v.Ints("item"); return new RangeValuePair<K, int>(_to(i[0]), _to(i[1]), i[2]); }

            public void Do(string ev, Obj v, Obj o)
            {
                switch (ev)
                {
                    case "rt.add":
                        o["refused"] = false;
                        try
                        {
                            var p = Pair(v);
                            if (v.Bool("pair")) _t.Add(p); else _t.Add(p.From, p.To, p.Value);
                        }
                        catch (ArgumentOutOfRangeException) { o["refused"] = true; }
                        break;
                    case "rt.remove": o["ok"] = _t.Remove(Pair(v)); break;
                    case "rt.has": o["ok"] = _t.Contains(Pair(v)); break;
                    case "rt.clear": _t.Clear(); break;
                    case "rt.rebuild": _t.Rebuild(); break;
                    case "rt.auto": _t.AutoRebuild = v.Bool("on"); break;
                    case "rt.query": o["out"] = _t[_to(v.Int("from")), _to(v.Int("to"))].Select(Item).ToList(); break;
                    case "rt.stab": o["out"] = _t[_to(v.Int("at"))].Select(Item).ToList(); break;
                    case "rt.ends":
                        o["min"] = _from(_t.Min);
                        o["max"] = _from(_t.Max);
                        break;
                    case "rt.list":
                        o["count"] = _t.Count;
                        o["values"] = _t.Values.ToList();
                        var a = new RangeValuePair<K, int>[_t.Count + 1];
                        _t.CopyTo(a, 1);
                        o["copied"] = a.Skip(1).Select(Item).ToList();
                        o["out"] = _t.Select(Item).ToList();
                        break;
                    case "rt.sync": o["sync"] = _t.IsInSync; break;
                }
            }
        }

        private static ITree _tree;

        public static void Register(Dictionary<string, Action<Obj, Obj>> ops)
        {
            ops["rt.new"] = (v, o) =>
            {
                switch (v.Str("keys"))
                {
                    case "int": _tree = new Of<int>(null, x => x, x => x); break;
                    case "reverse": _tree = new Of<int>(new By<int>((a, b) => (b - a) * 3), x => x, x => x); break;
                    case "far": _tree = new Of<int>(new By<int>((a, b) => (a - b) * 5), x => x, x => x); break;
                    case "float": _tree = new Of<float>(null, x => x * .5f, x => (int)(x * 2)); break;
                    case "text": _tree = new Of<string>(new By<string>((a, b) => string.CompareOrdinal(a ?? "", b ?? "")), x => x.ToString("D3"), x => x == null ? 0 : int.Parse(x)); break;
                }
            };
            foreach (var ev in new[] { "rt.add", "rt.remove", "rt.has", "rt.clear", "rt.rebuild", "rt.auto", "rt.query", "rt.stab", "rt.ends", "rt.list", "rt.sync" })
            {
                var e = ev;
                ops[e] = (v, o) => _tree.Do(e, v, o);
            }
        }
    }
}
