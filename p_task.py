from props import *
T = "include/neolib/task/"
ev = Harness("events.cpp", ["-include", "shim.h"], engine=CONC, repo_src=["src/task/event.cpp", "src/core/mutex.cpp", "src/core/lifetime.cpp", "src/core/service.cpp", "src/core/reference_counted.cpp"])
P("C35", "An event reaches exactly its current subscribers, in order, until one accepts it",
  "Triggering an event calls, with the argument given, the handlers subscribed at that moment, in subscription order with priority handlers first, skipping any unsubscribed meanwhile, and stops at the first that accepts it; the result says whether one did. Handlers may, while being called, unsubscribe themselves or others, subscribe new ones, trigger the event again, or destroy it. A queued trigger is delivered by the next pump of the thread's queue, in order and with its argument (only once and with the latest argument for handlers or events that ask for that), to handlers still subscribed to an event that still exists. Handlers are released once unsubscribed, and nothing destroyed is touched.",
  ["inputs", "histories"], "every history of subscribing (with or without priority), unsubscribing, triggering, pumping and destroying up to the bounds, with every assignment of such actions to the handlers, any 32-bit arguments",
  "No test uses events; what a handler does to its own event while being called is what breaks delivery.",
  [T + "event.hpp", T + "i_event.hpp", "src/task/event.cpp"], [("delivery", T + "event.hpp: sync_trigger"), ("queue", T + "event.hpp: async_event_queue::enqueue; src/task/event.cpp: pump_events"), ("subscription", T + "i_event.hpp: slot, sink")],
  quick=[W(ev, 0, 3, 2), W(ev, 0, 3, 2, 0, 1), W(ev, 1, 3)],
  thorough=[W(ev, 0, 4, 3, time=300), W(ev, 0, 4, 4, time=600), W(ev, 1, 4, time=300), W(ev, 1, 5, time=900)],
  reach=["history", "unsubscribed by another", "joined", "destroyed", "accepted", "nested", "queued", "queued once", "left before", "gone before", "pumped"],
  bounds={"quick": "3 handlers, 2 of which act, 2 triggers; 3 operations on two events and their queue.", "thorough": "4 handlers, all acting; 5 operations (within the time limits)."},
  assumptions=["one thread, the single-threaded locking strategy", "a queued handler is not unsubscribed and replaced by another at the same address before the next pump", "boost's missing cacheline constant is supplied by harness/shim.h"])

A = "include/neolib/app/"
C = "include/neolib/core/"
se = Harness("settings.cpp", ["-include", "shim.h", "-include", "cstring"], engine=CONC, repo_src=["src/task/event.cpp", "src/core/mutex.cpp", "src/core/lifetime.cpp", "src/core/service.cpp", "src/core/reference_counted.cpp"])
P("C36", "Settings keep their values, defaults and pending changes, saved or not",
  "A setting's value is the one last applied, or its default while it has none; a change is pending, seen only where asked for, until it is applied or discarded, and a change back to the current value is no change. Only optional settings can be cleared. Every change of a value (or of a default or enabled state in force) is announced exactly once, by the setting and by its manager, and applying names the categories affected. A key names one setting until that is deleted; unknown keys, categories and groups are reported. A setting's text says its value, and settings saved are, registered again under whatever default and in any order, read back with the values they had, while those at their default take the new default.",
  ["inputs", "histories"], "every history of changes up to the bounds over up to three settings with any 32-bit values and defaults; saving and reading back settings of each type, with any one character or short markup-laden string as a string's value",
  "No test touches settings; pending, default and saved states interact over histories, and what is read back depends on every character written.",
  [A + "settings.hpp", A + "setting.hpp", A + "setting_value.hpp", A + "setting_constraints.hpp", "src/app/settings.cpp", C + "string_utils.hpp"], [("pending changes", A + "setting.hpp: set_value, clear, apply_change, discard_change"), ("saving and reading", "src/app/settings.cpp: save, register_setting"), ("announcements", "src/app/settings.cpp: apply_changes, changed_setting")],
  quick=[W(se, 0, 2), W(se, 0, 3, 0, 1), W(se, 0, 2, 0, 3), W(se, 1, 0), W(se, 1, 1, 1), W(se, 1, 1, 2), W(se, 1, 2), W(se, 1, 3), W(se, 1, 4), W(se, 1, 5), W(se, 1, 6), W(se, 1, 7), W(se, 2, 0), W(se, 2, 1), W(se, 2, 2), W(se, 2, 3), W(se, 3, 2)],
  thorough=[W(se, 0, 3, time=300), W(se, 0, 4, 0, 1, time=300), W(se, 0, 5, 0, 1, time=600), W(se, 0, 3, 0, 3, time=300), W(se, 0, 4, time=900), W(se, 1, 0), W(se, 1, 1, 3, time=900), W(se, 1, 2), W(se, 1, 3), W(se, 1, 4), W(se, 1, 5), W(se, 1, 6), W(se, 1, 7), W(se, 2, 0), W(se, 2, 1), W(se, 2, 2), W(se, 2, 3), W(se, 3, 3, time=300)],
  reach=["history", "cleared", "applied", "discarded", "deleted", "both", "saved", "text", "titles"],
  bounds={"quick": "3 operations on one setting, 2 on two or three; strings of up to 2 characters; byte settings of every value, wider ones of extreme values; 2 titles.", "thorough": "5 operations on one setting, 4 on two, 3 on three (within the time limits); strings of up to 3; 3 titles."},
  assumptions=["the settings file is a string in memory in place of std::ifstream and std::ofstream", "one thread, the single-threaded locking strategy", "floating-point settings, whose text has six digits, are outside", "custom-typed settings are outside"])

sv = Harness("services.cpp", ["-include", "shim.h", "-include", "cstring"], engine=CONC)
P("C37", "A service is one object, started when first wanted, whoever provides it",
  "Asking for a service gives the object registered for its interface or, when there is none, starts one, once, under the provider's lock, and registers it; registering replaces it, and unregistering removes it or reports that it was not there. There is one provider at a time: asking for one before it is set, or allocating a second, is reported, and setting another, or the same again, keeps every service registered and leaves none behind.",
  ["histories", "inputs"], "every history of registering, unregistering, asking for and migrating two services up to the bounds, with any two distinct interface identifiers of equal hash",
  "No test registers a service; the cached pointer, the registry and the provider must agree after every history.",
  [C + "service.hpp", C + "i_service.hpp", "src/core/service.cpp"], [("lookup", C + "service.hpp: service"), ("provider", "src/core/service.cpp: set_service_provider, migrate_to")],
  quick=[W(sv, 3), W(sv, 4)], thorough=[W(sv, 5, time=300), W(sv, 6, time=600)],
  reach=["history", "started", "provider replaced", "provider set again"],
  bounds={"quick": "4 operations, 2 services, 3 providers.", "thorough": "6 operations (within the time limit)."},
  assumptions=["one thread", "services are registered and unregistered through the functions in neolib::services, not on the provider alone"])
