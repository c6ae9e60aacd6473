(ns lb.ops
  "What the test plugins do to the directives they are given, by position."
  (:require [limabean.plugin :as plugin]))

(defn- emit
  [rf result ops d]
  (reduce (fn [result op]
            (if (reduced? result)
              result
              (case (first op)
                :keep (rf result d)
                :give (rf result (second op))
                :set (rf result (merge d (second op)))
                :without (rf result (dissoc d (second op)))
                :err (rf result (plugin/dct-error! d (second op)))
                :errs (rf result (plugin/dct-error! (plugin/dct-error! d (second op)) (nth op 2)))
                :set-err (rf result (plugin/dct-error! (merge d (second op)) (nth op 2)))
                :give-err (rf result (plugin/dct-error! (second op) (nth op 2)))
                :throw (throw (ex-info (second op) {}))
                :throw-caused (throw (RuntimeException. (second op) (ex-info (nth op 2) {} (Exception. (nth op 3)))))
                :throw-old (plugin/error! d (second op)))))
    result
    ops))

(defn xf
  "A transducer: `ops` is a map of position to operations, with those of :else for any other position; operations at :end are for
  when there are no more."
  [ops]
  (fn [rf]
    (let [n (volatile! -1)]
      (fn
        ([] (rf))
        ([result] (rf (unreduced (emit rf result (:end ops) nil))))
        ([result d]
         (vswap! n inc)
         (emit rf result (get ops @n (get ops :else [[:keep]])) d))))))

(defn raw [{:keys [config]}] (xf (:raw config)))

(defn booked [{:keys [config]}] (xf (:booked config)))
