(ns clojure.string)
(defn blank? [s] (if s (.isBlank (str s)) true))
(defn join
  ([coll] (apply str coll))
  ([sep coll] (apply str (interpose (str sep) coll))))
(defn split
  ([s re] (vec (java.util.Arrays/asList (.split re s))))
  ([s re limit] (vec (java.util.Arrays/asList (.split re s limit)))))
(defn split-lines [s] (split s #"\r?\n"))
(defn upper-case [s] (.toUpperCase (.toString s)))
(defn lower-case [s] (.toLowerCase (.toString s)))
(defn capitalize [s] (let [s (.toString s)] (if (< (count s) 2) (upper-case s) (str (upper-case (subs s 0 1)) (lower-case (subs s 1))))))
(defn trim [s] (.strip (.toString s)))
(defn triml [s] (.stripLeading (.toString s)))
(defn trimr [s] (.stripTrailing (.toString s)))
(defn trim-newline [s] (loop [i (count s)] (if (and (pos? i) (contains? #{\newline \return} (nth s (dec i)))) (recur (dec i)) (subs s 0 i))))
(defn starts-with? [s x] (.startsWith (.toString s) x))
(defn ends-with? [s x] (.endsWith (.toString s) x))
(defn includes? [s x] (.contains (.toString s) x))
(defn index-of
  ([s v] (let [r (.indexOf (.toString s) (str v))] (if (= r -1) nil r)))
  ([s v from] (let [r (.indexOf (.toString s) (str v) from)] (if (= r -1) nil r))))
(defn last-index-of
  ([s v] (let [r (.lastIndexOf (.toString s) (str v))] (if (= r -1) nil r)))
  ([s v from] (let [r (.lastIndexOf (.toString s) (str v) from)] (if (= r -1) nil r))))
(defn reverse [s] (.toString (.reverse (java.lang.StringBuilder. s))))
(defn re-quote-replacement [s] (java.util.regex.Matcher/quoteReplacement (str s)))
(defn- replace-by [s re f all]
  (let [m (re-matcher re s) sb (java.lang.StringBuilder.)]
    (loop [at 0]
      (if (and (.find m) true)
        (do (.append sb (subs s at (.start m)))
            (.append sb (str (f (re-groups m))))
            (if all (recur (.end m)) (do (.append sb (subs s (.end m))) (.toString sb))))
        (do (.append sb (subs s at)) (.toString sb))))))
(defn replace [s match replacement]
  (let [s (.toString s)]
    (cond (char? match) (.replace s (str match) (str replacement))
          (string? match) (.replace s match replacement)
          (instance? java.util.regex.Pattern match)
          (if (string? replacement) (.replaceAll (re-matcher match s) replacement) (replace-by s match replacement true))
          :else (throw (IllegalArgumentException. (str "Invalid match arg: " match))))))
(defn replace-first [s match replacement]
  (let [s (.toString s)]
    (cond (or (char? match) (string? match))
          (let [m (str match) i (.indexOf s m)] (if (= i -1) s (str (subs s 0 i) replacement (subs s (+ i (count m))))))
          (instance? java.util.regex.Pattern match)
          (if (string? replacement) (.replaceFirst (re-matcher match s) replacement) (replace-by s match replacement false))
          :else (throw (IllegalArgumentException. (str "Invalid match arg: " match))))))
(defn escape [s cmap] (apply str (map (fn [c] (if-let [r (cmap c)] r c)) s)))
