(ns lb.booked-only (:require [lb.ops :as ops]))
(defn booked-xf [args] (ops/booked args))
