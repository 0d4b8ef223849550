# File transfer. The stream is assumed to be the protocol of io.Reader and io.Writer;
# acks counts the acknowledgements written, wire is what the last full read delivered,
# got and gotn are the first byte and the length of the last answer.

package scpsync

ghost acks int
ghost wire fun(int, int)
ghost got int
ghost gotn int
ghost copied int
ghost headers int

extern (io.Writer).Write (p) (n, err)
modifies acks
ensures err == nil ==> acks == old(acks) + 1 && n == len(p)
ensures err != nil ==> acks == old(acks)

extern (io.Reader).Read (p) (n, err)
modifies elems(p), got, gotn
ensures n >= 0 && n <= len(p) && gotn == n
ensures n >= 1 ==> p[0] == got

extern io.ReadFull (r, buf) (n, err)
modifies elems(buf), wire
ensures err == nil ==> n == len(buf)
ensures err == nil ==> forall(i, int, i >= 0 && i < len(buf) ==> buf[i] == wire[i])

extern bufio.NewReader (rd) (r)
ensures r != nil

extern (*bufio.Reader).ReadString (delim) (s, err)

extern io.Copy (dst, src) (n, err)
modifies copied
ensures n == copied

extern fmt.Fprintf (w, format, a) (n, err)
modifies headers
ensures err == nil ==> headers == old(headers) + 1

unit sendOKResponse
props C16
nopanic
requires stream != nil
modifies acks
ensures result == nil ==> acks == old(acks) + 1

unit readResponse
props C16
nopanic
requires stream != nil
modifies got, gotn
ensures ok: result == nil ==> gotn >= 1 && got == 0

unit readFile
props C16
nopanic
requires stream != nil
modifies acks, wire
ensures length: err == nil ==> file.Length >= 0 && len(file.Contents) == file.Length
ensures unaltered: err == nil ==> forall(i, int, i >= 0 && i < len(file.Contents) ==> file.Contents[i] == wire[i])
ensures terminator: err == nil ==> wire[len(file.Contents)] == 0
ensures acks: err == nil ==> acks == old(acks) + 3

unit sendFile
props C16
nopanic
requires stream != nil
modifies acks, got, gotn, copied, headers
ensures header: result == nil ==> headers == old(headers) + 1
ensures all: result == nil ==> copied == ln
ensures terminator: result == nil ==> acks == old(acks) + 1
ensures accepted: result == nil ==> gotn >= 1 && got == 0
