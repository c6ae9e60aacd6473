(ns lb.broken)
(throw (Exception. "this does not load"))
