// Minimal JSON for the C# drivers: one operation per line in, one answer per line out.
using System;
using System.Collections;
using System.Collections.Generic;
using System.Globalization;
using System.IO;
using System.Text;

namespace V
{
    public class Obj : Dictionary<string, object>
    {
        public int Int(string k) { return (int)(double)this[k]; }
        public int Int(string k, int d) { return ContainsKey(k) ? Int(k) : d; }
        public double Num(string k) { return (double)this[k]; }
        public string Str(string k) { return (string)this[k]; }
        public string Str(string k, string d) { return ContainsKey(k) ? Str(k) : d; }
        public bool Bool(string k, bool d = false) { return ContainsKey(k) ? (bool)this[k] : d; }
        public List<object> List(string k) { return (List<object>)this[k]; }
        public Obj O(string k) { return (Obj)this[k]; }
        public int[] Ints(string k) { return List(k).ConvertAll(x => (int)(double)x).ToArray(); }
    }

    public static class Json
    {
        private static string _s;
        private static int _i;

        public static object Parse(string s) { _s = s; _i = 0; return Val(); }

        private static void Ws() { while (_i < _s.Length && char.IsWhiteSpace(_s[_i])) _i++; }

        private static string Text()
        {
            var b = new StringBuilder();
            _i++;
            while (_s[_i] != '"')
            {
                if (_s[_i] == '\\')
                {
                    _i++;
                    switch (_s[_i])
                    {
                        case 'n': b.Append('\n'); break;
                        case 't': b.Append('\t'); break;
                        case 'r': b.Append('\r'); break;
                        case 'b': b.Append('\b'); break;
                        case 'f': b.Append('\f'); break;
                        case 'u': b.Append((char)Convert.ToInt32(_s.Substring(_i + 1, 4), 16)); _i += 4; break;
                        default: b.Append(_s[_i]); break;
                    }
                    _i++;
                }
                else b.Append(_s[_i++]);
            }
            _i++;
            return b.ToString();
        }

        private static object Val()
        {
            Ws();
            var c = _s[_i];
            if (c == '{')
            {
                var o = new Obj();
                _i++; Ws();
                while (_s[_i] != '}')
                {
                    Ws(); var k = Text(); Ws();
                    _i++;
                    o[k] = Val(); Ws();
                    if (_s[_i] == ',') _i++;
                    Ws();
                }
                _i++;
                return o;
            }
            if (c == '[')
            {
                var l = new List<object>();
                _i++; Ws();
                while (_s[_i] != ']') { l.Add(Val()); Ws(); if (_s[_i] == ',') _i++; Ws(); }
                _i++;
                return l;
            }
            if (c == '"') return Text();
            if (c == 't') { _i += 4; return true; }
            if (c == 'f') { _i += 5; return false; }
            if (c == 'n') { _i += 4; return null; }
            var b = _i;
            while (_i < _s.Length && "+-.eE0123456789".IndexOf(_s[_i]) >= 0) _i++;
            return double.Parse(_s.Substring(b, _i - b), CultureInfo.InvariantCulture);
        }

        public static void Write(StringBuilder b, object v)
        {
            if (v is string)
            {
                b.Append('"');
                foreach (var c in (string)v)
                    if (c == '"' || c == '\\') b.Append('\\').Append(c);
                    else if (c < 32 || c > 126) b.AppendFormat("\\u{0:x4}", (int)c);
                    else b.Append(c);
                b.Append('"');
            }
            else if (v is bool) b.Append((bool)v ? "true" : "false");
            else if (v is IDictionary)
            {
                var first = true;
                b.Append('{');
                foreach (DictionaryEntry e in (IDictionary)v)
                {
                    if (!first) b.Append(',');
                    first = false;
                    Write(b, e.Key); b.Append(':'); Write(b, e.Value);
                }
                b.Append('}');
            }
            else if (v is IEnumerable)
            {
                var first = true;
                b.Append('[');
                foreach (var e in (IEnumerable)v) { if (!first) b.Append(','); first = false; Write(b, e); }
                b.Append(']');
            }
            else b.Append(Convert.ToString(v, CultureInfo.InvariantCulture));
        }

        public static string Of(object v) { var b = new StringBuilder(); Write(b, v); return b.ToString(); }
    }

    public static class Program
    {
        public static readonly Dictionary<string, Action<Obj, Obj>> Ops = new Dictionary<string, Action<Obj, Obj>>();

        public static int Main(string[] args)
        {
            if (args.Length > 0 && args[0] == "client") Client.Register(Ops); else Register.All();
            var stdout = new StreamWriter(Console.OpenStandardOutput()) { AutoFlush = true };
            Console.SetOut(Console.Error);
            var stdin = new StreamReader(Console.OpenStandardInput());
            string line;
            while ((line = stdin.ReadLine()) != null)
            {
                if (line.Length == 0) continue;
                var o = new Obj();
                try
                {
                    var v = (Obj)Json.Parse(line);
                    Ops[v.Str("ev")](v, o);
                }
                catch (Exception e)
                {
                    o = new Obj();
                    o["error"] = e.GetType().Name + ": " + e.Message + " " + (Environment.GetEnvironmentVariable("VERIF_DEBUG") != null ? e.StackTrace : "");
                }
                stdout.WriteLine(Json.Of(o));
            }
            Environment.Exit(0);
            return 0;
        }
    }
}
