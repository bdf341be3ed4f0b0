import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(obs),hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
p("C01","No recording, however damaged, takes the reader down",
 "Whatever bytes are left of a recording after crashes, torn or lost writes, bit rot, network loss or plain forgery, every public function returns: a value, or an error where its signature has one. None panics (arithmetic overflow checks included), aborts the process, overflows the stack or fails to come back. The same holds for the functions that work on values (players to teams, statistics to players) for every value of their input types.",
 ["inputs","crash_points","fault_sequences"],"All byte strings, in particular every recording after any sequence of storage, network and recorder faults; all values for the value-level functions.",
 "The tests read eight intact demos and a handful of short strings; a crash at a particular offset, a forged length or an extreme number is never tried.",
 ["src/qw/frame.rs","src/qw/block.rs","src/qw/primitives.rs","src/clientinfo.rs","src/serverinfo.rs","src/ktxstats.rs","src/duration.rs","src/matchdate.rs","src/team.rs","src/ping.rs","src/flags.rs"],
 [("frame header decoding checks sizes against what is left","src/qw/frame.rs Info::from_data_and_index"),("clamped search windows","src/clientinfo.rs, src/serverinfo.rs"),("checked block arithmetic","src/qw/block.rs, src/ktxstats.rs")],
 obs=["return of every function exported by the crate root and by mvdparser::all"])
p("C02","A recording cut off by a crash reads as its whole frames",
 "When the recorder dies after any byte, what the reader reports about prints, frags, pings, flag events and elapsed time is exactly what it reports for the recording cut back to the last complete frame: a partly written frame counts for nothing and costs nothing that came before it. As the recording grows again the list of prints, the list of clients and the elapsed time of an unfinished match only ever extend, and header facts that were readable (server info, file name, timestamp) never change. A proper prefix of a recording is never reported as a valid, finished demo.",
 ["crash_points","histories"],"All recordings and all crash points (every byte offset), and all pairs of successive snapshots of a growing recording.",
 "The tests read complete demos only; no test truncates one.",
 ["src/qw/frame.rs","src/prints.rs","src/frags.rs","src/ping.rs","src/flags.rs","src/duration.rs","src/clientinfo.rs","src/serverinfo.rs","src/validate.rs"],
 [("frame walk stops at the first frame that is not complete","src/qw/frame.rs Info::from_data_and_index"),("end-of-demo marker must be the very last bytes","src/validate.rs has_end_of_demo_print")],
 obs=["prints, frags_per_player_name, ping_per_player_number, flag_events_per_player_name, demo_duration, clients, serverinfo, filename, timestamp, is_valid on every prefix"])
p("C03","Results depend on the bytes alone",
 "Calling any public function on the same bytes gives the same result (order of lists included) regardless of what was parsed before, of whether the buffer was reused for other content in between, of the process's random hash seeds, and of which other threads are parsing what at the same moment. No interleaving of concurrent calls, on the same or on different recordings, makes one disturb, block or deadlock another.",
 ["schedules","histories","configurations"],"All interleavings of concurrent callers, all call histories, all hash seeds, all buffer reuse patterns.",
 "Each test calls a function once per input on one thread under one random hash seed; order that depends on the seed or state that leaks between calls shows up rarely and unrepeatably.",
 ["src/team.rs","src/teams.rs","src/players.rs","src/clients.rs","src/frags.rs","src/ping.rs","src/flags.rs","src/clientinfo.rs"],
 [("no state outlives a call","whole crate"),("lists built from maps are put in a total order","src/team.rs teams_from_players, src/players.rs players_from_parsing, src/player.rs sort, src/clients.rs team_names")],
 obs=["every public function"])
p("C04","Memory use is bounded by the size of the recording",
 "Parsing needs at most memory proportional to the size of the recording plus a constant, whatever lengths, counts or block sizes the (possibly torn or forged) bytes claim. In particular no length field makes the parser reserve memory for data that is not there, and a long-running reader that parses one recording after the other does not grow: what a call held is released once it has returned and its result is dropped, up to a constant.",
 ["inputs","fault_sequences"],"All byte strings, in particular recordings whose length fields, slot numbers and block headers were torn, flipped or forged.",
 "No test measures memory, and none has a length field that lies.",
 ["src/qw/frame.rs","src/qw/block.rs","src/qw/primitives.rs","src/ktxstats.rs","src/prints.rs"],
 [("bodies are borrowed slices; strings grow as they are read","src/qw/primitives.rs read_bstring"),("block bodies are taken only if present","src/ktxstats.rs ktxstats_string")],
 obs=["peak allocation of every public function, under an accounting allocator"])
p("C05","The print log is what the recording says, in order",
 "The print log lists the non-empty text messages that open the recorded frames, each with its level and exact content, in recording order, with immediate repeats of the same message collapsed to one. Nothing is lost, reordered, merged or invented, for every way the recorder packed messages into frames (several prints in one frame, other messages behind them, empty frames, frames for one, several or all viewers, large frames) and for every loss, duplication or reordering of frames on the way.",
 ["schedules","histories","fault_sequences"],"All match histories, all packings of messages into frames, all relay fault sequences.",
 "The one test compares a few prints of one demo, whose frames were packed one way.",
 ["src/prints.rs","src/qw/frame.rs","src/qw/message/print.rs","src/qw/prot.rs"],
 [("frame walk","src/qw/frame.rs"),("leading run of prints per frame, then dedup","src/prints.rs prints")],
 obs=["prints"])
p("C06","Frags per player are the recorded obituaries added up",
 "For every match history, each name's score is the sum over the obituaries that open a recorded frame: +1 for killing another player, -1 for dying to the world or by one's own weapon, -2 for a suicide command, -1 for killing a teammate. When the obituary does not name the team killer, the blame goes to the first player on the victim's team (other than the victim) whose score update directly follows the obituary, in the same or the next two non-empty frames, and to nobody if there is none. Chat, other prints and score updates never change a score.",
 ["histories","schedules","fault_sequences"],"All sequences of kills, deaths, suicides and team kills by players of any name and team, all placements of score updates around them, all relay fault sequences.",
 "The tests compare final scores of a few real matches; most obituary kinds, name collisions and update placements never occur in them.",
 ["src/frags.rs","src/qw/fragevent.rs","src/qw/fragprint.rs","src/qw/message/update_frags.rs","src/clients.rs"],
 [("obituary classification","src/qw/fragevent.rs"),("search for the team killer in following frames","src/frags.rs find_team_killer")],
 obs=["frags_per_player_name"])
p("C07","Durations are the recorder's clock read at the right marks",
 "Demo duration is the sum of the frame times up to and including the frame with the last match-over announcement (if there is none, the last return to standby; if there is none either, the whole recording); countdown duration is the same sum up to the first matchdate announcement, and zero in hoonymode. Match duration is the one in the statistics dump when that is readable (and the mode is not hoonymode), otherwise demo minus countdown and never negative. All are exact to the millisecond for every length and packing of the recording.",
 ["histories","schedules","fault_sequences"],"All match histories including pauses, restarts, overtime, missing marks and recordings of any length, under any frame timing and relay fault sequence.",
 "The tests check the durations of a few demos to the second; long recordings, missing or repeated marks and clock totals beyond small counters are not reached.",
 ["src/duration.rs","src/matchdate.rs","src/ktxstats.rs","src/qw/frame.rs"],
 [("sum of frame times until the mark's offset","src/duration.rs duration_until_offset"),("choice of marks","src/duration.rs demo_duration, countdown_duration, match_duration")],
 obs=["demo_duration, countdown_duration, match_duration, match_duration_from_seeking, match_duration_from_ktxstats"])
p("C08","Pings are the average of the first eight ping rounds",
 "The ping reported for a slot is the average, rounded down, of that slot's values in the first eight frames that open with ping updates (all of them if there are fewer), and a slot is reported exactly if it occurs in one of those frames. Later rounds, empty frames in between, other traffic and the number of slots do not influence it, and a recording without any ping round yields an error.",
 ["histories","schedules","fault_sequences"],"All ping histories of up to 256 slots with any values, joins and leaves, any packing, under any relay fault sequence.",
 "The test checks one demo with two players.",
 ["src/ping.rs","src/qw/message/update_ping.rs"],
 [("sample counting per frame","src/ping.rs ping_per_player_number")],
 obs=["ping_per_player_number"])
p("C09","The roster is who the sign-on says is there",
 "The clients reported are exactly the occupied slots of the sign-on list that opens the recording, in order, each with the slot number, name, team, colors, spectator and bot flag and login it was sent with; empty slots in between are skipped and changes later in the match do not alter the list. Players and spectators are its two complementary parts, the name lists are those names sorted without regard to case and color, and each team name of a player occurs once in the list of team names. Whether bot or human players took part follows from the same list (or, for bots, from the statistics dump).",
 ["histories","inputs","configurations"],"All sign-on lists of up to 32 slots, any pattern of empty slots, any names (colored, blank-padded) and key order, any join, leave or rename later on.",
 "The tests check a few demos with ordinary names and full slots.",
 ["src/clients.rs","src/clientinfo.rs","src/client.rs"],
 [("scan of userinfo strings after the spawn command","src/clientinfo.rs numbered_clientinfo_strings"),("partition and sorting","src/clients.rs")],
 obs=["clients, clientinfo, clientinfo_strings, player_clients, spectator_clients, player_names, spectator_names, team_names, has_bot_players, has_human_players, has_clients"])
p("C10","Players and teams conserve people, frags and order",
 "The player list holds every player of the match once, joined with the frags of that name and the ping of that slot (or exactly as the statistics dump says when there is one), ordered by frags and then by name. Every player is in exactly one team, the one whose name it carries; a team's frags are the sum and its ping the rounded mean over its players, its color is the commonest of its players' (the first player's for up to two players and among equals), and teams are ordered by name without regard to case. Spectators appear in neither.",
 ["histories","inputs","configurations"],"All rosters, scores, pings, colors and team names, with and without a statistics dump, under any hash seed and relay fault sequence.",
 "The tests check a few matches without ties in score, color or team name.",
 ["src/players.rs","src/player.rs","src/team.rs","src/teams.rs"],
 [("join of clients, pings and frags","src/players.rs players_from_parsing"),("grouping and totals","src/team.rs")],
 obs=["players, players_from_parsing, players_from_ktxstats, teams, teams_from_players, teams_from_ktxstats"])
p("C11","The statistics dump is read whole and exact, or not at all",
 "The statistics text returned is byte for byte the last dump written into the recording, put together from all its consecutive blocks, however it was split. If that dump is torn, cut off, has a block missing, repeated or out of order at its head or middle, or is interrupted by other frames, the result is an error, never a partial or mixed text. Players, teams, server and match duration come from the dump when it is readable and are otherwise exactly what they would be without it.",
 ["crash_points","fault_sequences","inputs"],"All dumps and all splits into blocks, every crash point inside them, all sequences of lost, repeated, swapped or foreign frames between them.",
 "The test reads one intact dump of one demo.",
 ["src/ktxstats.rs","src/qw/block.rs","src/players.rs","src/server.rs","src/duration.rs"],
 [("block chain walk","src/ktxstats.rs ktxstats_string"),("fallback","src/players.rs players, src/duration.rs match_duration")],
 obs=["ktxstats_string, ktxstats_v3, players, teams, server, match_duration"])
p("C12","Valid, aborted and paused tell how the recording ended",
 "A recording is valid exactly if it is at least 1024 bytes long, ends with the end-of-demo marker and has server info and at least one client; in particular a recorder crash anywhere makes it invalid. It is aborted exactly if the server announced a majority vote to stop the match, and paused exactly if a pause was announced and the recording has not been finished.",
 ["histories","crash_points","fault_sequences"],"All match histories (with pauses, votes, restarts) and all ways to end a recording: finished, crashed at any byte, marker lost, header lost.",
 "The tests check the flags on intact demos and a few short strings.",
 ["src/validate.rs","src/aborted.rs","src/paused.rs"],
 [("marker and needle searches","src/validate.rs, src/aborted.rs, src/paused.rs")],
 obs=["is_valid, is_aborted, is_paused, has_end_of_demo_print, has_clients"])
p("C13","Header facts and the timestamp come from the sign-on",
 "Server info is exactly the settings text the server sent at sign-on, decoded to plain characters, and the file name is its demo entry; later settings changes do not alter it. The timestamp is the server's epoch if it sent one, for every representable epoch, and otherwise the first matchdate announcement converted from its time zone (abbreviation or numeric offset) to UTC, whatever the server clock was; with neither the result is an error.",
 ["inputs","histories","configurations"],"All sign-on settings in any order and size up to the protocol limit, all server clocks (skewed, before 1970, beyond 2038) and time zones, all later setting changes.",
 "The tests check a few demos of two servers and a few literal strings.",
 ["src/serverinfo.rs","src/filename.rs","src/timestamp.rs","src/matchdate.rs","src/timezone.rs","src/bytesextra.rs"],
 [("first settings text in the first 1280 bytes","src/serverinfo.rs serverinfo_string"),("epoch first, matchdate second","src/timestamp.rs timestamp")],
 obs=["serverinfo, serverinfo_string, filename, timestamp, timestamp_from_epoch, matchdate, matchdate_string"])
p("C14","Flag events per player are the recorded announcements added up",
 "In a capture-the-flag match each player's captures, pickups, returns, flag defends, carrier defends (also against an aggressive enemy) and carrier frag assists are the number of the respective announcements with that name. This holds whether an announcement arrives as one message or as the name followed by the rest, for any number of announcements in the same frame, between any other traffic. Nobody else is listed.",
 ["histories","schedules","fault_sequences"],"All sequences of flag announcements, all packings into frames, all relay fault sequences.",
 "The only test needs a demo that is not in the repository; ordering and packing variants are not tried.",
 ["src/flags.rs","src/qw/flagevent.rs","src/qw/flagprint.rs"],
 [("joining split announcements","src/flags.rs flag_events_per_player_name"),("classification","src/qw/flagevent.rs")],
 obs=["flag_events_per_player_name"])
p("C15","Damage inside one frame stays inside that frame",
 "If the body of one recorded frame is overwritten with arbitrary bytes while its header survives, the prints, frag scores, pings and flag events that come from all other frames are reported unchanged; at most the damaged frame's own contribution is lost or replaced. Elapsed time does not change unless a mark was in that frame. If a whole range of frames is lost, what remains is reported as if the lost frames had never been recorded.",
 ["fault_sequences","inputs"],"All recordings, all choices of a frame, all replacement bodies; all lost ranges of frames.",
 "No test damages a demo.",
 ["src/qw/frame.rs","src/prints.rs","src/frags.rs","src/ping.rs","src/flags.rs"],
 [("every frame body is read through its own bounded cursor","src/prints.rs, src/frags.rs, src/ping.rs, src/flags.rs"),("next frame is found from the header alone","src/qw/frame.rs")],
 obs=["prints, frags_per_player_name, ping_per_player_number, flag_events_per_player_name, demo_duration"])
p("C16","Reading takes time in proportion to the size of the recording",
 "The work any function does grows no faster than the recording does: for a recording that is several times as long and made of the same things - frames, messages, obituaries, team kills nobody can be blamed for, announcements, ping rounds, sign-on entries, blocks of a statistics dump, empty frames, marks, messages that never end - it takes at most that many times as long, up to a constant. A long-running reader is not stalled by one recording, in whatever state it arrives.",
 ["inputs","histories","fault_sequences"],"All recordings, however large, damaged or forged; all repetitions of their parts.",
 "No test measures work, and no test recording is large in the respect that matters.",
 ["src/qw/frame.rs","src/clientinfo.rs","src/flags.rs","src/frags.rs","src/prints.rs","src/ktxstats.rs","src/duration.rs","src/bytesextra.rs"],
 [("single forward walks over the frames","src/qw/frame.rs"),("a window of a few frames after an obituary, clients read once","src/frags.rs find_team_killer"),("bounded look-ahead","src/clientinfo.rs")],
 obs=["steps (control-flow edges in the crate and the text crates it uses) taken by every function exported by mvdparser::all"])
p("C17","Everything reported about one recording fits together",
 "Whatever state a recording is in, the reports about it tell one story. Players and spectators are the complementary parts of the clients, in their order; the name lists, team names and the bot and human flags are about these same people, and all of them are known or unknown together. Each player listed is a player client with the score of that name and the ping of that slot (or all come from the statistics dump, for players, teams, server and match duration alike), and teams hold just these players. File name, timestamp and validity follow from the server info, dates, clients and end mark that are reported themselves; match duration is the demo minus the countdown unless the dump tells it, and no duration exceeds the frame times added up. Every print reported is in the recording after the one before it, and every name with a score is a client's or is named in a print.",
 ["inputs","crash_points","fault_sequences"],"All byte strings, in particular every recording after any sequence of storage, network and recorder faults.",
 "Each test looks at one function and one intact demo; whether two functions still agree about a damaged one is never asked.",
 ["src/clients.rs","src/clientinfo.rs","src/players.rs","src/teams.rs","src/team.rs","src/server.rs","src/ktxstats.rs","src/duration.rs","src/timestamp.rs","src/filename.rs","src/validate.rs","src/paused.rs","src/prints.rs","src/frags.rs"],
 [("one source per fact, from which the rest is derived","src/clientinfo.rs numbered_clientinfo_strings, src/serverinfo.rs serverinfo_string, src/ktxstats.rs ktxstats_string"),("fallback from the dump to parsing","src/players.rs, src/duration.rs, src/timestamp.rs")],
 obs=["every function exported by mvdparser::all, compared with the others"])
# not claimed
p("D01","Every listed time zone abbreviation maps to its conventional offset",
 "For each abbreviation in the table, the offset used is the one its comment names.",["inputs"],"The finite table of abbreviations.",
 "Only some abbreviations are sampled.",["src/timezone.rs"],[("table","src/timezone.rs UTC_OFFSET_BY_ABBR")],obs=["matchdate"])
p("D02","Quake characters are decoded to the same text everywhere",
 "Names in obituaries, user info and statistics that are byte-identical are text-identical, and the plain-text form of a name strips color and maps the special glyphs.",["inputs"],"All 256 character codes.",
 "Only a few glyphs occur in the tests.",["src/prints.rs","src/frags.rs","src/clientinfo.rs","src/serverinfo.rs"],[("quake_text tables","dependency quake_text")],obs=["clients, frags_per_player_name, serverinfo_string"])
p("D03","Statistics fields are mapped to the player fields of the same meaning",
 "Each field of a statistics entry ends up in the player field documented for it, with absent fields defaulting.",["inputs"],"All statistics documents.",
 "One document is checked.",["src/player.rs","src/server.rs","src/ktxstats.rs"],[("From<&ktxstats::v3::Player>","src/player.rs")],obs=["players_from_ktxstats, server"])
with open(__import__('os').path.join(__import__('os').path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P:
        assert len(d['title'])<=80,d['id']; f.write(json.dumps(d,ensure_ascii=False)+'\n')
