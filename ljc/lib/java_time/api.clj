(ns java-time.api
  (:refer-clojure :exclude [< > <= >= max min format]))
(defn- failed [args e] (throw (ex-info "Conversion failed" {:arguments args} e)))
(defn local-date
  ([] (java.time.LocalDate/now))
  ([x] (cond (instance? java.time.LocalDate x) x
             (string? x) (try (java.time.LocalDate/parse x) (catch Exception e (failed [x] e)))
             (integer? x) (try (java.time.LocalDate/of (int x) 1 1) (catch Exception e (failed [x] e)))
             (instance? java.time.LocalDateTime x) (.toLocalDate x)
             (nil? x) (throw (IllegalArgumentException. "no conversion of nil to a local date"))
             :else (ljc-unsupported (str "local-date of " (class x)))))
  ([y m] (if (and (integer? y) (integer? m)) (try (java.time.LocalDate/of (int y) (int m) 1) (catch Exception e (failed [y m] e)))
             (ljc-unsupported "local-date of two")))
  ([y m d] (try (java.time.LocalDate/of (int y) (int m) (int d)) (catch Exception e (failed [y m d] e)))))
(defn local-date? [x] (instance? java.time.LocalDate x))
(defn- chained [f xs] (or (nil? (next xs)) (and (f (first xs) (second xs)) (chained f (next xs)))))
(defn before? [& ds] (chained (fn [a b] (.isBefore a b)) ds))
(defn after? [& ds] (chained (fn [a b] (.isAfter a b)) ds))
(defn not-before? [& ds] (chained (fn [a b] (not (.isBefore a b))) ds))
(defn not-after? [& ds] (chained (fn [a b] (not (.isAfter a b))) ds))
(def < before?)
(def > after?)
(def <= not-after?)
(def >= not-before?)
(defn days [n] (java.time.Period/ofDays (int n)))
(defn months [n] (java.time.Period/ofMonths (int n)))
(defn years [n] (java.time.Period/ofYears (int n)))
(defn plus [d p] (.plus d p))
(defn minus [d p] (.minus d p))
(defn max [& ds] (reduce (fn [a b] (if (.isAfter b a) b a)) ds))
(defn min [& ds] (reduce (fn [a b] (if (.isBefore b a) b a)) ds))
(defn year [d] (.getYear d))
(defn format ([d] (str d)) ([f d] (.format d (java.time.format.DateTimeFormatter/ofPattern f))))
