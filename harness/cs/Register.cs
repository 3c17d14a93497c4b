namespace V
{
    public static class Register
    {
        public static void All()
        {
            Geo.Register(Program.Ops);
            Tree.Register(Program.Ops);
            Anim.Register(Program.Ops);
            Tiles.Register(Program.Ops);
            Data.Register(Program.Ops);
        }
    }
}
