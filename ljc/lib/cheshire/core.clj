(ns cheshire.core (:require [cheshire.generate :as g] [cheshire.parse :as p]))
(defn generate-string ([x] (json-out* x @g/encoders)) ([x opts] (json-out* x @g/encoders)))
(defn parse-string
  ([s] (when s (json-in* s nil p/*use-bigdecimals?* nil)))
  ([s key-fn] (when s (json-in* s (if (true? key-fn) keyword key-fn) p/*use-bigdecimals?* nil)))
  ([s key-fn acf] (when s (json-in* s (if (true? key-fn) keyword key-fn) p/*use-bigdecimals?* acf))))
