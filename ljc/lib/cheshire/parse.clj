(ns cheshire.parse)
(def ^:dynamic *use-bigdecimals?* false)
