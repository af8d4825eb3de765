# A stand-in for the module of this name, which is not installed in the sandbox.
package JSON::MaybeXS;
use strict;
use warnings;
use JSON::PP ();

sub import {
	no strict 'refs';
	my $to = caller;
	*{"${to}::encode_json"} = \&JSON::PP::encode_json;
	*{"${to}::decode_json"} = \&JSON::PP::decode_json;
	*{"${to}::JSON"} = sub { 'JSON::PP' };
}
sub new {
	my $class = shift;
	my %o = @_ == 1 ? %{$_[0]} : @_;
	my $j = JSON::PP -> new;
	$j -> $_($o{$_}) for keys %o;
	return $j;
}
1;
