// Stand-in for an unreachable git dependency (feature `js`, never enabled here).
