"""The registry: one Check per property."""
from . import booking_checks as B
from .core import Check

RULE = ("seeded random ledgers ({}), each rendered as a beanfile, served by the real limabean-pod and judged against the "
        "reference model and the monitors; non-trivial when {}; distinct by the profile of events observed")

CHECKS = {}


def add(c):
    assert c.id not in CHECKS
    CHECKS[c.id] = c


def has(*ks):
    return lambda L: any(L.led.stats.get(k) for k in ks)


add(Check("C01", RULE.format("simple, priced and costed transactions, balanced, unbalanced and at the edge of tolerance, "
                             "all tolerance options", "at least one transaction was decided"),
          {"ledger": B.booking_kind(B.BALANCED, r"(missing|extra|kind|reason):booking|txn\.posting\.units", [B.mon_balanced], nontrivial=has("txn", "err:booking")),
           "lots": B.booking_kind(B.LOTS, r"(missing|extra|kind|reason):booking|txn\.posting\.units", [B.mon_balanced], nontrivial=has("txn", "err:booking")),
           "long": B.booking_kind(B.LONG, r"(missing|extra|kind|reason):booking|txn\.postings?\b", [B.mon_balanced], nontrivial=has("txn", "err:booking"))},
          [("ledger", 2400), ("lots", 600), ("long", 100)], [("ledger", 40000), ("lots", 10000), ("long", 2000)],
          needs=("txn", "err:booking", "many-lots", "balance-monitored"),
          probes={"zero-multiplier": B.probe_zero_multiplier, "opposite-total": B.probe_opposite_total, "rounded-units": B.probe_rounded_units, "foreign-lot": B.probe_foreign_lot}))

add(Check("C02", RULE.format("transactions with omitted numbers, currencies, costs and prices, determinable or not",
                             "something was interpolated or refused"),
          {"ledger": B.booking_kind(B.INTERP, r"txn\.posting\.(units|cur|cost|price)|txn\.postings|(missing|extra|kind|reason):booking", [B.mon_given], nontrivial=has("interpolated", "err:booking"))},
          [("ledger", 3200)], [("ledger", 50000)], needs=("interpolated", "err:booking", "given-monitored")))

add(Check("C03", RULE.format("purchases and sales at cost under every booking method", "a lot was opened or reduced"),
          {"ledger": B.booking_kind(B.LOTS, r"txn\.posting\.(units|cur|cost|price)|txn\.postings|(missing|extra|kind|reason):booking", [B.mon_lots], nontrivial=has("reduction"))},
          [("ledger", 3200)], [("ledger", 50000)], needs=("reduction", "multi-lot", "many-lots", "lot-opened", "lot-movement-monitored"),
          probes={"retagged": B.probe_retagged, "zero-multiplier": B.probe_zero_multiplier_all}))

add(Check("C04", RULE.format("sales of more than is held, of lots that are not held, and short positions", "a reduction was accepted or refused"),
          {"ledger": B.booking_kind(B.HOLD, r"(missing|extra|kind|reason):booking|txn\.posting\.(units|cost)|txn\.postings", [B.mon_lots, B.mon_given], nontrivial=has("reduction", "err:booking")),
           "kept": B.booking_kind(B.KEPT, r"(missing|extra|kind|reason):(booking|balance)|txn\.posting\.(units|cost)|txn\.postings", [B.mon_lots, B.mon_balances],
                                  nontrivial=lambda L: any(L.led.stats.get(k) for k in ("err:booking", "err:acc-not-open", "err:currency")) and any(L.led.stats.get(k) for k in ("balance-ok", "err:balance")))},
          [("ledger", 2600), ("kept", 900)], [("ledger", 40000), ("kept", 15000)],
          needs=("reduction", "err:booking", "err:acc-not-open", "err:currency", "balance-ok", "err:balance", "lot-movement-monitored"),
          probes={"retagged": B.probe_retagged}))

LIFEK = "acc-not-open|acc-closed|double-open|reopen|close-not-open"
add(Check("C05", RULE.format("opens, closes, reopenings, and use of accounts never opened or already closed", "a lifecycle rule was exercised"),
          {"ledger": B.booking_kind(B.LIFE, r"(missing|extra|kind|reason|related):(%s)" % LIFEK + r"|^open\b|^close\b|out\.", [B.mon_open], nontrivial=has(*("err:" + k for k in LIFEK.split("|")), "close"))},
          [("ledger", 3600)], [("ledger", 60000)],
          needs=("close",) + tuple("err:" + k for k in LIFEK.split("|")) + ("posting-monitored",)))

add(Check("C06", RULE.format("accounts opened with currency constraints", "a constrained account was posted to or refused a currency"),
          {"ledger": B.booking_kind(B.CURS, r"(missing|extra|kind|reason|related):(currency|pad-currency)", [B.mon_open], nontrivial=has("err:currency", "err:pad-currency", "txn"))},
          [("ledger", 3600)], [("ledger", 60000)], needs=("err:currency", "err:pad-currency", "posting-monitored")))

add(Check("C07", RULE.format("balance assertions true, false, within and at the edge of stated and inferred tolerances, over "
                             "trees of accounts whose names extend one another", "a balance was decided"),
          {"ledger": B.booking_kind(B.BAL, r"(missing|extra|kind|reason):(balance|pad-not-needed)|^balance\b", [B.mon_balances], nontrivial=has("balance-ok", "err:balance"))},
          [("ledger", 3600)], [("ledger", 60000)], needs=("balance-ok", "balance-within-tolerance", "err:balance", "balance-assertion-monitored")))

add(Check("C08", RULE.format("pads used, unused, doubled, not needed, from bad sources", "a pad took effect or was refused"),
          {"ledger": B.booking_kind(B.PAD, r"(missing|extra|kind|reason|related):pad|pad-txn|^pad\b|(missing|extra):balance|out\.", [B.mon_balances, B.mon_order], nontrivial=has("padded", "err:pad-not-needed", "err:pad-second", "err:pad-self"))},
          [("ledger", 3600)], [("ledger", 60000)],
          needs=("padded", "err:pad-not-needed", "err:pad-second", "err:pad-self", "err:pad-unused", "err:pad-currency")))

add(Check("C09", RULE.format("directives of every kind with tags, links, metadata, flags, payees", "something was booked"),
          {"ledger": B.booking_kind(B.FIELDS, r"^(out\.|txn\b|pad\b|pad-txn\.(flag|payee|narration|tags|links|metadata|date)|open|close|balance|price|commodity|document|note|event|query|custom)", [B.mon_order, B.mon_given], nontrivial=lambda L: not L.led.errors)},
          [("ledger", 2600)], [("ledger", 50000)], needs=("passthrough", "txn", "provenance-monitored", "multi-lot", "via-params")))

from . import source_checks as S  # noqa: E402
from . import wire_checks as W  # noqa: E402

add(Check("C10", RULE.format("directives of every kind, shape and layout the language allows", "anything was parsed"),
          {"raw": W.kind_raw, "booked": W.kind_raw_booked},
          [("raw", 2200), ("booked", 600)], [("raw", 40000), ("booked", 8000)],
          needs=("raw-txn", "raw-open", "raw-close", "raw-balance", "raw-pad", "raw-price", "raw-commodity", "raw-document",
                 "raw-note", "raw-event", "raw-query", "raw-custom", "span")))

add(Check("C12", RULE.format("directives as parsed, rewritten as equivalent JSON and submitted for booking", "directives were submitted"),
          {"roundtrip": W.kind_roundtrip, "submitted": W.kind_submitted, "raw": W.kind_raw_roundtrip},
          [("roundtrip", 1200), ("submitted", 500), ("raw", 500)], [("roundtrip", 20000), ("submitted", 8000), ("raw", 8000)],
          needs=("roundtrip-verbatim", "roundtrip-rewritten", "roundtrip-unspanned", "submitted", "submitted-nothing", "roundtrip-raw"),
          probes={"escaped-names": W.probe_escaped_names}))

add(Check("C13", RULE.format("mistakes of every kind, several at once", "something was refused"),
          {"ledger": B.booking_kind(B.ERRS, r"^(report|error|related|message|context|missing|extra|kind|reason|annotation)", nontrivial=lambda L: bool(L.led.errors), params=0.4),
           "long": B.booking_kind(B.LONGERR, r"^(report|error|related|message|context|missing|extra|kind|reason|annotation)", nontrivial=lambda L: bool(L.led.errors), params=0.4)},
          [("ledger", 3400), ("long", 150)], [("ledger", 60000), ("long", 2500)],
          needs=("ledgers-refused", "via-params", "via-file") + tuple("err:" + k for k in LIFEK.split("|"))))

add(Check("C24", RULE.format("false balance assertions over trees of accounts", "a balance assertion failed"),
          {"ledger": B.booking_kind(B.DIAG, r"(reason|kind|missing|extra):balance|annotation", nontrivial=has("err:balance"), params=0.3),
           "long": B.booking_kind(B.LONGERR, r"(reason|kind|missing|extra):balance|annotation", nontrivial=has("err:balance"), params=0.3)},
          [("ledger", 3400), ("long", 150)], [("ledger", 60000), ("long", 2500)], needs=("err:balance",)))

add(Check("C27", RULE.format("amounts of up to 28 significant digits and arithmetic upon them", "an amount was booked"),
          {"ledger": B.booking_kind(B.PREC, r"units|tolerance|cost|price|metadata|values|(missing|extra|reason):(booking|balance)", nontrivial=has("txn", "passthrough"), params=0.4),
           "raw": W.kind_raw, "options": S.kind_options},
          [("ledger", 2600), ("raw", 400), ("options", 300)], [("ledger", 40000), ("raw", 8000), ("options", 5000)],
          needs=("txn", "via-params", "span", "option-inferred-tolerance-default")))

add(Check("C11", "options and plugins of every kind, set or not, in any order; and ledgers whose booking depends upon options; "
                 "non-trivial when anything was set; distinct by what was set",
          {"options": S.kind_options, "bad": S.kind_bad_option, "honoured": B.booking_kind(S.OPTS, r".")},
          [("options", 1600), ("bad", 200), ("honoured", 1200)], [("options", 30000), ("bad", 2000), ("honoured", 20000)],
          needs=("option-title", "option-booking-method", "option-documents", "option-plugin-processing-mode", "plugins",
                 "renamed-roots", "bad-option", "txn", "err:balance")))

add(Check("C17", "spans of everything parsed, arbitrary and invalid spans, and synthetic sources, resolved; distinct by requests",
          {"resolve": S.kind_resolve, "synthetic": S.kind_synthetic},
          [("resolve", 900), ("synthetic", 1200)], [("resolve", 15000), ("synthetic", 20000)],
          needs=("resolved", "synthetic-created", "synthetic-resolved"),
          probes={"multibyte-end": S.probe_multibyte_end, "synthetic-lines": S.probe_synthetic_lines}))

add(Check("C18", "booking complaints and composed reports, formatted as errors and warnings; non-trivial when there was a report; "
                 "distinct by the complaints",
          {"booking": S.kind_format, "composed": S.kind_format_made},
          [("booking", 1200), ("composed", 900)], [("booking", 20000), ("composed", 15000)],
          needs=("report-formatted", "related-formatted", "annotation-formatted", "composed")))

add(Check("C22", "ledgers spread over trees of included files with tags and metadata pushed and popped; distinct by profile",
          {"many": S.kind_many, "twice": S.kind_twice, "wide": S.kind_wide},
          [("many", 1500), ("twice", 200), ("wide", 40)], [("many", 25000), ("twice", 2000), ("wide", 600)],
          needs=("wide-files", "wide-chain", "wide-tall", "wide-long", "wide-good", "wide-syntax", "wide-booking", "multi-file", "stacked", "placed", "include-twice", "include-missing", "include-push")))

add(Check("C23", "files that cannot be read or do not parse, asked everything; distinct by fault and place",
          {"unreadable": S.kind_unreadable, "unparsable": S.kind_unparsable, "many": S.kind_unparsable_many, "nested": S.kind_nested},
          [("unreadable", 300), ("unparsable", 1000), ("many", 1200), ("nested", 400)], [("unreadable", 2000), ("unparsable", 20000), ("many", 25000), ("nested", 8000)],
          needs=("nested", "context", "unparsable-many", "fault-of-grammar", "fault-of-meaning", "fault-only-included", "complaint-placed", "unreadable-missing", "unreadable-named-bytes", "unreadable-latin1", "unreadable-directory", "unparsable")))

from . import service_checks as V  # noqa: E402

add(Check("C14", "ledgers good, bad and unparsable, in one file or many, asked over and over by several processes amid other requests, or "
                 "rewritten while being asked about; distinct by the profile of the ledger",
          {"repeat": V.kind_repeat, "snapshot": V.kind_snapshot},
          [("repeat", 900), ("snapshot", 400)], [("repeat", 15000), ("snapshot", 5000)],
          needs=("answer-repeated", "unparsable", "refused", "booked", "processes", "snapshot-answer"),
          probes={"currency-order": V.probe_currency_order, "group-order": V.probe_group_order}))

add(Check("C15", "sequences of requests valid and invalid, all at once, a line at a time or in pieces; distinct by the sequence",
          {"protocol": V.kind_protocol, "large": V.kind_large, "lengthy": V.kind_lengthy, "cut": V.kind_cut},
          [("protocol", 1800), ("large", 24), ("lengthy", 32), ("cut", 40)], [("protocol", 30000), ("large", 200), ("lengthy", 300), ("cut", 200)],
          needs=("mode-batch", "mode-interactive", "mode-pieces", "crlf", "no-final-newline", "bad-answered", "answered-book", "large", "lengthy", "huge-request", "not-text")))

add(Check("C16", "files and requests mutated at random, and sizes and depths nobody writes by hand; distinct by the shape of the answers",
          {"files": V.kind_mutated_files, "sparse": V.kind_sparse, "requests": V.kind_mutated_requests, "extremes": V.kind_extremes, "rich": V.kind_rich, "lengthy": V.kind_lengthy, "unreadable": S.kind_unreadable, "long": B.booking_kind(B.LONGERR, r"^$")},
          [("long", 100), ("files", 2500), ("sparse", 300), ("unreadable", 150), ("rich", 900), ("requests", 400), ("extremes", 40), ("lengthy", 16)], [("long", 2000), ("files", 60000), ("sparse", 8000), ("unreadable", 1500), ("rich", 20000), ("requests", 8000), ("extremes", 300), ("lengthy", 200)],
          needs=("with-log", "sparse-booked", "sparse-refused", "unreadable-named-bytes", "rich", "rich-annotated", "mutated-parsed", "mutated-refused", "asked-about", "request-taken", "request-refused", "extreme"),
          probes={"division": V.probe_div, "multiplication": V.probe_mul, "addition": V.probe_add, "subtraction": V.probe_sub,
                  "currency": V.probe_currency, "pragmas": V.probe_pragmas, "wide-text": V.probe_wide_text}))

add(Check("C19", "conversations with and without a log, at every level; distinct by level, log and ledger",
          {"logging": V.kind_logging}, [("logging", 900)], [("logging", 12000)],
          needs=("logged-None", "hopeless-log", "logged-debug", "logged-off", "log-line")))

add(Check("C25", "ledgers with mistakes, and the same without what was refused; distinct by the profile of the ledger",
          {"removal": V.kind_removal}, [("removal", 2200)], [("removal", 40000)],
          needs=("removed-booking", "removed-acc-not-open", "removed-acc-closed", "removed-double-open", "removed-currency",
                 "removed-dct-close", "removed-dct-txn", "removed-dct-pad", "removed-dct-open", "removed-pad-self", "removed-all")))

add(Check("C26", "the same directives in two layouts; distinct by the profile of the ledger",
          {"layout": V.kind_layout}, [("layout", 1800)], [("layout", 30000)],
          needs=("reordered", "layout-lf", "layout-crlf", "layout-unended", "layout-booked", "layout-refused")))

from . import cli_checks as T  # noqa: E402

add(Check("C20", "tables of every kind of cell, nested, and input that is no table; distinct by size and shape",
          {"tabulate": T.kind_tabulate, "bad": T.kind_untabulable}, [("tabulate", 2600), ("bad", 300)], [("tabulate", 40000), ("bad", 3000)],
          needs=("tabulated", "wide", "untabulable")))

add(Check("C21", "the launcher under every environment, with stand-ins for clojure and java; distinct by environment, arguments and exit",
          {"launch": T.kind_launch}, [("launch", 1600)], [("launch", 20000)],
          needs=("launched-java", "launched-clojure", "launch-missing", "verbose", "deps-ignored", "jar-built-in"), jar=True))

add(Check("C28", "the health check under every environment, with stand-ins for clojure and java; distinct by what was there",
          {"health": T.kind_health}, [("health", 900)], [("health", 6000)],
          needs=("health-good", "health-killed", "health-failed", "health-bad-java", "health-bad-clojure", "health-bad-jar", "jar-built-in"), jar=True))

from . import clj_checks as J  # noqa: E402


def cljadd(id, rule, kinds, quick, thorough, needs):
    add(Check(id, rule + ": the Clojure sources run by the interpreter in ljc against the real limabean-pod; distinct by what was observed",
              kinds, quick, thorough, needs=needs, clj=True,
              assumptions=["the interpreter in /verif/ljc means by Clojure what Clojure means by it (ljc/README in DESIGN.md; what it does not know ends in no verdict)"]))


cljadd("C29", "inventories of booked ledgers, of their accounts and of what filters leave of them",
       {"inventory": J.kind_inventory, "golden": J.kind_golden("inventory")},
       [("inventory", 900), ("golden", 1)], [("inventory", 14000), ("golden", 1)],
       ("inventories", "positions", "lots", "lots-merged-or-gone", "booking-none"))
cljadd("C30", "journals of booked ledgers, whole and filtered",
       {"journal": J.kind_journal, "golden": J.kind_golden("journal")},
       [("journal", 800), ("golden", 1)], [("journal", 12000), ("golden", 1)],
       ("journals", "entries", "balance-back-to-zero", "costs-left-out"))
cljadd("C31", "rollups of inventories by each currency and by the primary one",
       {"rollup": J.kind_rollup, "golden": J.kind_golden("rollup")},
       [("rollup", 800), ("golden", 1)], [("rollup", 12000), ("golden", 1)],
       ("rollups", "totals", "accounts-with-own-and-below", "zero-totals", "primary-chosen", "empty"))
cljadd("C32", "filters of every kind and combinations of them, on directives, on their postings and on what has no such field; dates that are none",
       {"filters": J.kind_filters, "dates": J.kind_bad_dates}, [("filters", 500), ("dates", 120)], [("filters", 8000), ("dates", 1500)],
       ("filtered", "selected", "bad-dates") + tuple("filter-" + o for o in (
           "narration-match", "some-f", "none-f", "every-f", "date<", "date<=", "date>", "date>=", "date>=<", "acc", "sub-acc", "cur", "payee-match")))
cljadd("C33", "balances and income statements of booked ledgers, under their own and renamed root accounts, whole and filtered",
       {"balances": J.kind_balances}, [("balances", 800)], [("balances", 12000)],
       ("balances", "accounts", "some-left-out", "income-statement", "renamed-roots"))
cljadd("C34", "directives as parsed, as booked and as plugins made them, printed and read again",
       {"print": J.kind_print, "golden": J.kind_golden("printed", "printed-raw-xf")},
       [("print", 700), ("golden", 1)], [("print", 10000), ("golden", 1)],
       ("printed-raw", "printed-booked", "printed-made", "printed-and-read"))
cljadd("C35", "pipelines of plugins which insert, drop, replace and change directives before and after booking, or fail",
       {"good": J.kind_plugins_good, "failing": J.kind_plugins_failing, "wide": J.kind_plugins_wide, "golden": J.kind_golden("raw-xf")},
       [("good", 500), ("failing", 350), ("wide", 1), ("golden", 1)], [("good", 8000), ("failing", 6000), ("wide", 12), ("golden", 1)],
       ("wide-pipeline", "raw-xf", "booked-xf", "with-provenance", "synthetic", "booking-refused", "dct-errors", "thrown", "invalid"))
cljadd("C36", "ledgers loaded: directives, options, plugins and registry",
       {"load": J.kind_load, "options": J.kind_options, "plugins": J.kind_plugins_good, "golden": J.kind_golden("directives")},
       [("load", 700), ("options", 200), ("plugins", 80), ("golden", 1)], [("load", 10000), ("options", 3000), ("plugins", 1500), ("golden", 1)],
       ("loaded", "directives", "booked", "options", "as-written", "booked-xf", "golden"))
cljadd("C37", "ledgers refused by the parser, by booking and by plugins, the reports of each",
       {"refused": J.kind_refused, "unparsed": J.kind_unparsed, "unresolved": J.kind_unresolved, "failing": J.kind_plugins_failing, "dying": J.kind_dying, "golden": J.kind_golden("error")},
       [("refused", 400), ("unparsed", 200), ("unresolved", 200), ("failing", 120), ("dying", 48), ("golden", 1)],
       [("refused", 7000), ("unparsed", 3000), ("unresolved", 3000), ("failing", 2000), ("dying", 900), ("golden", 1)],
       ("reports", "report-of-posting", "report-of-directive", "report-related", "report-modified", "report-annotated", "report-synthetic",
        "unparsed", "unresolved", "configured", "dying-exit", "dying-kill", "dying-half", "dying-tabulate", "dying-at-0", "dying-at-3"))
cljadd("C38", "the program run with arguments of every kind, through the launcher",
       {"program": J.kind_program}, [("program", 220)], [("program", 3000)],
       tuple("program-" + x for x in ("help", "unknown", "version", "no-beanfile", "no-such", "superfluous", "good", "throw", "unread", "repl")))
cljadd("C39", "values of every kind shown: results of queries, and arbitrary data",
       {"show": J.kind_show}, [("show", 900)], [("show", 14000)],
       ("shown", "shown-journal", "shown-inventory", "shown-rollup", "shown-literal"))
cljadd("C40", "sessions loading one ledger after another, good and bad",
       {"lifecycle": J.kind_lifecycle}, [("lifecycle", 500)], [("lifecycle", 8000)],
       tuple("reload-" + x for x in ("good", "refused", "unparsed", "missing", "unreadable", "plugin", "unresolved")))
cljadd("C41", "ledgers with some, none or all of their accounts opened, and the plugin which opens the rest",
       {"auto": J.kind_auto}, [("auto", 600)], [("auto", 9000)], ("auto-opened", "auto-booked"))
cljadd("C42", "ledgers with plugins which change nothing, in every position, and without",
       {"identity": J.kind_identity}, [("identity", 600)], [("identity", 9000)], ("unchanged-booked", "unchanged-refused"))
cljadd("C43", "the user's own definitions, good, failing and absent",
       {"user": J.kind_user_clj}, [("user", 120)], [("user", 1200)], ("user-clj", "user-clj-failed"))
cljadd("C44", "runs with a directory to dump into: there, missing, not given",
       {"dump": J.kind_dumped}, [("dump", 120)], [("dump", 1200)],
       ("dump-there", "dump-missing", "dump-none", "dumped-raw", "dumped-raw-xf", "dumped-booked", "dumped-booked-xf"))
