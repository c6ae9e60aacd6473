package ljc;
public interface IFn { Object invoke(Object[] args); }
