(ns lb.raw-only (:require [lb.ops :as ops]))
(defn raw-xf [args] (ops/raw args))
