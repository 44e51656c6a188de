NOTES={
'P01':'Decides effects, not values: a read that returns a wrong value is a matter of P05 and P08.',
'P03':'The piece-by-piece comparison loop (common prefix) is decided for its result (where a node is split), not by induction over keys.',
'P05':'Which node the matching loop ends at is assumed (see P30); what is made of it is decided.',
'P13':'The order of children and the formatting of a dump are not stated.',
'P16':'Timing itself is declined (P33).',
'P17':'What a format library makes of a text is declined (P31).',
'P19':'Events are those the watching library delivers.',
'P20':'Only the value is guarded by the lock; the shape of the tree is not synchronised by the library and nothing is claimed for it.',
'P21':'Default settings are not stated; that an option reaches the code that uses it is decided as: something other than options looks at the setting.',
}
