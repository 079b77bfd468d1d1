L="""1ff934a C34 requests beyond 65535 octets were sent with a wrong length
ff2e75b C38 a device that announced a huge APDU made the client build requests without limit
f0b225a C06 the odd days of a month were taken for the last day, the even ones for the odd ones
665b727 C18 an application tag with number 6 or 7 in its length was taken for an opening or closing tag
0af1caa C01,C02,C03 value lengths beyond the received bytes were allocated or panicked
27c3302 C06 an unspecified year was decoded as 2155 or similar
51114e9 C06 years were counted from 1990 instead of 1900
3e1bc26 C04,C05,C06 negative integers were encoded and decoded as unsigned
b3f8bb1 C05 a double announced four octets
7f51bfe C15 a binary value/output given a value that is no number crashed the encoder
78ac1aa C03 numbers, identifiers and nulls of a wrong length were read from the octets that follow
3a11fe8 C11,C13,C15,C16 object types, instances and properties that do not fit were truncated into another object
0b3a388 C12,C14 read acknowledgements were encoded with a wrong closing tag and untagged values
981a8f6 C16 WritePropertyMultiple priority and binary values had wrong tags
5492e4f C01,C03,C12,C14 acknowledgements were decoded past or short of their closing tags
aed4c2b C18 an Error PDU in its plain form was not decoded
30cb0ac C09 sequence number and window of a segmented acknowledgement were lost
f37db48 C07 the vendor id was read for the wrong network messages, priority spilled over
135826f C08 a router announcement lost or repeated networks
bbf2d53 C17 an I-Am with missing or mistyped fields was accepted
30998bf C17 Who-Is limits that are no instance numbers were accepted
9d6dcdd C19 bit string operations went beyond the octets
2df636b C20,C34 the address length of a routed address did not match the address
010df60 C21 GetType of the printed name of an unnamed type failed
d4a3720 C21 an ObjectMap could not be loaded from JSON
4150f6d C22 a priority array of analogue points was not built
91c9c4c C23 an answer without properties crashed the conversions
33c9bbd C39 the port of a network device was replaced
d024d8c C20 the identifier of a network device did not carry its device id
5e14c88 C20 a device address that is not IPv4 crashed
18dd084 C31 a late replier or a cancelled transaction panicked or received a foreign answer
56a544e C33 Publish waited for slow subscribers, announcements were lost
553520e C37,C36 announcements that arrived at once were lost; a data race on the error
15f1e60 C34 a Who-Is for the local network was framed as a unicast
8b96683 C36 forwarded packets were attributed to the forwarder, a short one crashed
dcd3f43 C35,C36 requests and network messages were taken for answers
6cef72c C35 full size APDUs with network addresses were cut
909278d C34 the client builder ignored its data link and mixed up port and subnet
ee6ed15 C20 IPv6 peers crashed the receiver
812816b C35 an acknowledgement of another service was taken for success
be4eeb0 C34 write-multiple requests were not addressed behind routers
b4f590e C34 an I-Am was sent incomplete
d662b85 C38 object list answers were not checked against what was asked
7d50a1f C39 odd object lists crashed the device discovery
2add42a C39 every discovered device was the same device
784044c C39 discovered devices were asked at a wrong address and with a wrong APDU size
fd40fbe C37 Who-Is with ArrayAll found no devices
80bb9fb C38 object names were asked for in requests beyond a device's APDU size
14fa0ac C42 a port that is no UDP port was replaced by a random one
edafbe0 C43 looking up a device as a network, or the reverse, crashed
a7273f5 C43 giving a device to a network made by the store crashed
e2a9fb1 C25,C39 units above 65535 were named after their low 16 bits
c49adb0 C20 impossible ports, network numbers, MS/TP addresses and device ids were replaced by others
c500f2d C42 closing a client together with its log left the client running and its port taken"""
out=["# Genuine defects of NubeDev/bacnet found by these checks.",
"# 'fixed:' entries were repaired in /repo (commit given); they suppress nothing.",
"# A finding that is not repaired would be listed as 'finding: property=<id> <what fails>'; there is none."]
for l in L.split("\n"):
    c,ps,w=l.split(" ",2)
    for p in ps.split(","): out.append(f"fixed: property={p} {c} {w}")
open("/verif/known-findings.txt","w").write("\n".join(out)+"\n")
