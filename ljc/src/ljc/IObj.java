package ljc;
public interface IObj { Object meta(); IObj withMeta(Object m); }
