"""Writes known_findings.json (run by hand; checks only read the file)."""
import json
FIXED = """bea1580 P05 a duration of a multiple of 10 s was written as a tenth of its seconds (PT10S became PT1S)
c7a2d89 P05 years before 1000 were written without their leading zeros
2b1711c P04 unpaired surrogates and XML noncharacters were written raw, giving XML nobody can read
caaab37 P04 characters were decoded from escape sequences that straddle two characters
197e603 P04 the display text (ToString) was written without escaping
0dc5bab P05 a plain int below the Int32 minimum was written as I32
f507944 P07 serializing a queue emptied it
2ba9f07 P06 an object whose first type name matched an earlier list was written with a reference to that other list
6b67dbf P06 equal but distinct objects were written as references to one object
672083c P05 decimals were written with an exponent and NaN in a form nobody can read
de975cd P16 a progress record with an empty string could not be read
9df4e3b P07 every duration operation grew a class level list
5e5d2fd P05 a bounded integer made from an enum was not range checked
f1111c3 P20 a PSDateTime made from another one lost its nanosecond
48645e5 P20 durations and versions defined equality but could not be hashed
d67fc85 P16 an input of None was sent as PipelineOutput
f1b8dc0 P02 a payload could mix data of two stream types
f0c0a28 P01 a receive buffer that ends inside a fragment made the poll fail or cut the message short
1622b3a P19 the CLIXML header was written by a retrieval before there was anything to write
d26f639 P22 a connection for another pool was applied before it was refused
dfaeacd P22 the session key could not be requested again from a newly connected client
24db7a8 P11 a message that could not be serialized left changed counters and states behind
059e6b5 P20 nanoseconds were lost when a duration or date-time was the right hand operand
3f3fec2 P06 properties and elements were read out of document order, so references could not be resolved
20b485d P07 a document changed the shared enum member it mentioned
614d757 P12 a bool was accepted as the number of available runspaces
acfda2b P03 an incomplete received message changed part of the pool before its error
d4dc41a P15 an explicitly asked STA apartment state (value 0) of a pipeline was replaced by the pool's
9dddb05 P21 creating a CommandMetadataCount added its Count a second time, untyped, and hid later assignments
99b8ca3 P06 an error or message record that occurs twice in a document was written twice and came back as two
1f49d5e P17 a secure string received from another peer (or a CLIXML shell) was sent on without being encrypted for the session
81eaa0c P19 a CLIXML string without values or with several Objs elements (partial retrievals joined) could not be read
1ae55b9 P20 an integer raised to a negative power was truncated to an integer (PSInt(2) ** -1 == 0)
fb1c1bf P20 PSVersion accepted a trailing newline and non-ASCII digits, so equal values had different hashes
70938e7 P21 a subclass redeclaring a property of its parent set one copy and read the other
69d1017 P22 a session key request processed while the client is disconnected raised and was lost for good (the server does not repeat it)
19ef4d1 P07 changing the properties of the text decrypted from a secure string changed the secure string
5800803 P18 changing the protocol version in the capability of one pool changed it for all other pools of the process
c2ba1a1 P24 the fragments of a message that turned out to be invalid were kept for good
b80e539 P23 the text of an error record whose exception has no message could not be had
12cd9e3 P23 the repr of an object that contains itself never ended
108513d P23 the text of a script extent that has missing positions could not be had
865f4e9 P03 a damaged message changed the type names of an enum class for the whole process
10051af P26 an item of a byte array was as many zero bytes as its value
a3a0e28 P26 a date-time with replaced parts had no nanoseconds and no properties of its own, in another time zone it lost its nanoseconds
50b19af P26 arithmetic of an integer with a float or Decimal raised a TypeError
04ad903 P26 a key that is no text and missing in a dictionary was a TypeError about an attribute"""
json.dump({
    "findings": [{
        "id": "connect-no-capability", "property": "P22",
        "what": "a new client that connects to an existing pool never learns the server's capability: the server sends "
                "no SessionCapability on connect, their_capability stays None and operations that need protocol 2.3 "
                "(reset_runspace_state) are refused although the server supports them",
        "where": "ServerRunspacePool._process_ConnectRunspacePool / SessionCapability while Connecting; the existing "
                 "tests pin RunspacePoolInitData as the first answer, so it is recorded and not repaired"},
        {"id": "cell-type-name", "property": "P14",
         "what": "the BufferCellType of a BufferCell that is passed as an object (not through the requestor or "
                 "responder) arrives as ControlKeyStates with the same number: the enum is registered under the type "
                 "name of ControlKeyStates",
         "where": "types/_host.py BufferCellType; tests/test_types/test_host.py::test_buffer_cell pins the wrong name, "
                  "so it is recorded and not repaired"},
        {"id": "cell-type-name", "property": "P06",
         "what": "a BufferCell reads back with a ControlKeyStates value as its BufferCellType (see P14)",
         "where": "types/_host.py BufferCellType"}],
    "fixed": ["fixed: property=%s %s %s" % (l.split(" ", 2)[1], l.split(" ", 2)[0], l.split(" ", 2)[2])
              for l in FIXED.splitlines()]}, open("known_findings.json", "w"), indent=1)
