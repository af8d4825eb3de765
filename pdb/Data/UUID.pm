# A stand-in for the module of this name, which is not installed in the sandbox.
package Data::UUID;
use strict;
use warnings;

sub new { bless {}, $_[0] }
sub create {
	open(my $f, '<:raw', '/dev/urandom') or die $!;
	read($f, my $b, 16) == 16 or die "no random bytes";
	return $b;
}
*create_bin = \&create;
sub to_string { my ($self, $b) = @_; my $h = uc unpack('H*', $b); join('-', $h =~ /^(.{8})(.{4})(.{4})(.{4})(.{12})$/) }
sub to_hexstring { '0x' . unpack('H*', $_[1]) }
sub create_str { $_[0] -> to_string($_[0] -> create) }
*create_hex = sub { $_[0] -> to_hexstring($_[0] -> create) };
1;
